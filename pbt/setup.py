"""Nothing to build: make sure that what the checks need is there."""
import subprocess
import sys

sys.exit(subprocess.call([
    '/opt/venv/bin/python', '-c',
    'import hypothesis, gmpy2, numpy, shapely, trimesh, ezdxf, pyrsistent;'
    'print("ready")']))
