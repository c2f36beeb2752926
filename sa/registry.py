"""property id -> deciding procedure"""
import importlib

CHECKS = {}


def reg(pid, mod, fn, *a, **k):
    CHECKS[pid] = (mod, fn, a, k)


def run(pid):
    mod, fn, a, k = CHECKS[pid]
    m = importlib.import_module('checks.' + mod)
    return getattr(m, fn)(pid, *a, **k)


reg('C15', 'formulas', 'main', 'unweighted', 'defining equation of each unweighted statistic as a relation of extractor value numbers before/after one update; compared in normal form')
reg('C16', 'formulas', 'main', 'weighted', 'defining equation of each weighted statistic as a relation of extractor value numbers before/after one update; compared in normal form')
reg('C13', 'formulas', 'main', 'integral', 'the same defining equations for integral sample and weight types; integer division and float-to-integer conversion are distinct operators of the value numbers')
reg('C10', 'rolling', 'main')
reg('C01', 'generic', 'main', 'run_archive')
reg('C04', 'generic', 'main', 'run_purity')
reg('C18', 'generic', 'main', 'run_copies')
reg('C14', 'extrema', 'main_mm')
reg('C17', 'extrema', 'main_k')
reg('C03', 'framework', 'main_delivery')
reg('C19', 'framework', 'main_params')
reg('C08', 'routing', 'main')
reg('C06', 'drop', 'main')
reg('C23', 'estim', 'main')
reg('C24', 'estim', 'main')
reg('C25', 'estim', 'main')
reg('C27', 'estim', 'main')
reg('C02', 'compose', 'main')
reg('C09', 'tails', 'main')
reg('C28', 'tails', 'main')
reg('C26', 'tails', 'main')
reg('C07', 'unit', 'main')
reg('C29', 'epsq', 'main')
reg('C20', 'element', 'main')
reg('C22', 'isolation', 'main')
reg('C21', 'types', 'main_spell')
reg('C31', 'types', 'main_reject')
