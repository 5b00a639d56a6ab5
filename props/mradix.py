"""The vocabulary of props/radix.py instantiated for MambaRadixCache / MambaTreeNode."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("props.radix_mamba", os.path.join(os.path.dirname(os.path.abspath(__file__)), "radix.py"))
R = importlib.util.module_from_spec(_s)
R.MAMBA = True
_s.loader.exec_module(R)
