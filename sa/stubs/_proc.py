import _world


class CompletedProcess:
    def __init__(self, returncode, stdout, stderr):
        self.returncode = returncode
        self.stdout = stdout
        self.stderr = stderr


class TempFile:
    def __init__(self, name):
        self.name = name
        self.file = self

    def write(self, text):
        _world.temp_write(text)

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
