"""Hands a description to the real parser."""
import os
import tempfile


def parse_text(text):
    from src.jsonParser import Parser
    fd, path = tempfile.mkstemp(suffix=".smb.json", prefix="dst-")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        return Parser(path)
    finally:
        os.unlink(path)
