import importlib
def load(pid):
    return importlib.import_module(f"mc.props.{pid}")
