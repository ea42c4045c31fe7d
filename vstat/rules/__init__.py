"""Rule modules: importing them fills api.REGISTRY."""
import importlib
import pkgutil

for _m in pkgutil.iter_modules(__path__):
    if _m.name not in ("h", "script"):
        importlib.import_module(f"{__name__}.{_m.name}")
