def load_all():
    """import every task module (they register themselves)"""
    import importlib, os
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f not in ('__init__.py',):
            importlib.import_module('tasks.' + f[:-3])
