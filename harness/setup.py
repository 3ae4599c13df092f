"""Nothing to build (pure Python): check that the interpreter and its libraries are present."""
import subprocess, sys
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, pyvista, shapely, rasterio, scilogger, scisave, joblib, jsonschema, PIL; print('ok')"])
sys.exit(r.returncode)
