from . import np_, jax_, pyd, misc, tfp, pandas_, io_  # noqa: F401
