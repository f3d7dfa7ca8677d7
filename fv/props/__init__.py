from .. import env  # noqa: F401  (import paths)
