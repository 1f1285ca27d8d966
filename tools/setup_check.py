"""setup: nothing is built; confirm that the tools the checks need are there"""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3                                            # noqa
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())
