"""setup_cmd: verifies that the tools are there and pre-builds the engine."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
os.makedirs(os.path.join(build.VERIF, "build", "obj"), exist_ok=True)
for s in ("ref.cpp", "scene.cpp", "valid.cpp", "oracle.cpp", "pbt_main.cpp"):
    build.compile_one(os.path.join(build.VERIF, "src", s), "fast")
print("ok")
