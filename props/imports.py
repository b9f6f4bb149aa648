""" Import everything of africanus the properties touch, before forking. """
import importlib

MODULES = """
africanus.averaging africanus.averaging.dask africanus.averaging.splines
africanus.averaging.support africanus.calibration.utils
africanus.calibration.utils.dask africanus.calibration.phase_only
africanus.calibration.phase_only.dask africanus.coordinates
africanus.coordinates.dask africanus.dft africanus.dft.dask
africanus.deconv.hogbom africanus.gps.kernels africanus.gps.utils
africanus.gridding.nifty.dask africanus.gridding.perleypolyhedron.dask
africanus.gridding.perleypolyhedron.kernels africanus.gridding.util
africanus.gridding.wgridder africanus.gridding.wgridder.dask
africanus.linalg africanus.model.coherency africanus.model.coherency.dask
africanus.model.shape africanus.model.shape.dask africanus.model.spectral
africanus.model.spectral.dask africanus.model.spi africanus.model.spi.dask
africanus.model.wsclean africanus.model.wsclean.dask africanus.rime
africanus.rime.dask africanus.rime.dask_predict
africanus.rime.parangles_casa africanus.rime.parangles_astropy
africanus.testing.beam_factory africanus.util.appdirs africanus.util.beams
africanus.util.casa_types africanus.util.cmdline africanus.util.code
africanus.util.cub africanus.util.cuda africanus.util.dask_util
africanus.util.docs africanus.util.files africanus.util.jinja2
africanus.util.numba africanus.util.nvcc africanus.util.requirements
africanus.util.shapes africanus.util.testing africanus.util.trove
africanus.util.type_inference africanus.model.coherency.cuda
africanus.rime.cuda
""".split()


def load_all():
    missing = []
    for m in MODULES:
        try:
            importlib.import_module(m)
        except Exception as e:      # a broken module shows up in its property
            missing.append((m, "%s: %s" % (type(e).__name__, e)))
    return missing
