"""Client programs of the checks: they use the public API and are analysed together with the repository (never executed)."""
CLIENTS = {}


def client(name, src):
    CLIENTS[name] = src
