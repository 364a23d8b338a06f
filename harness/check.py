"""Entry point of every check: check.py <property id>.  VERIF_TIER and VERIF_SEED select depth and randomness."""
import os, sys, importlib, traceback
sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Result, Scratch, HangError, MachineryError

AREAS = {
    'area_sim': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C16', 'C17', 'C18'],
    'area_plan': ['C14', 'C22'],
    'area_layers': ['C09', 'C10', 'C11', 'C12'],
    'area_instr': ['C13'],
    'area_report': ['C15'],
    'area_logger': ['C19'],
    'area_cbi': ['C20'],
    'area_session': ['C07'],
    'area_errors': ['C21'],
    'area_solver': ['C23'],
    'area_rv': ['C24'],
}


def main(prop):
    area = next((a for a, ps in AREAS.items() if prop in ps), None)
    if area is None:
        print(f'unknown property {prop}')
        return 2
    res = Result(prop)
    try:
        with Scratch() as scratch:
            importlib.import_module(area).check(prop, res, scratch)
            return res.finish()
    except HangError as ex:
        res.violations.append(('hang', 0, {'crash'}, {'why': str(ex)}))
        return res.finish()


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except MachineryError as ex:
        print('MACHINERY:', ex)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
