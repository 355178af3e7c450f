"""setup_cmd: generates the protobuf sources the checks compile against (offline)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxx
print(cxx.gen_protos(os.path.join(cxx.build_dir(), 'gen')))
