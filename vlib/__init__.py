"""Shared machinery for the model-checking harnesses of /verif."""
