"""Deterministic simulation of PostBOUND. Import order matters: `dst.boot` must run before anything imports postbound."""
