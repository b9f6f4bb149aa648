"""Deterministic simulation framework for codex-africanus."""
