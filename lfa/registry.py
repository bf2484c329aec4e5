"""property -> (rule function, jobs it needs)"""
from .rules import frames, structs, stacks, pools, workers, exceptions, tasks, roots, results, ownership, throws, local, algos, witness, headers

CHECKS = {
    'C01': (frames.c01, ['aw', 'res']),
    'C02': (frames.c02, ['aw', 'res', 'deque', 'list']),
    'C03': (frames.c03, ['aw', 'res', 'sched']),
    'C04': (frames.c04, ['aw', 'res']),
    'C05': (stacks.c05, ['stack', 'pnew']),
    'C06': (structs.c06, ['deque']),
    'C07': (structs.c07, ['list']),
    'C08': (structs.c08, ['ec']),
    'C09': (pools.c09, ['pool', 'notify']),
    'C10': (pools.c10, ['pool']),
    'C11': (workers.c11, ['tls', 'pool', 'ctor']),
    'C12': (workers.c12, ['res', 'pool', 'numa']),
    'C13': (roots.c13, ['fut', 'evt', 'root', 'aw']),
    'C14': (roots.c14, ['root']),
    'C15': (exceptions.c15, ['aw', 'stash']),
    'C16': (exceptions.c16, ['aw', 'xf']),
    'C25': (tasks.c25, ['coalloc']),
    'C31': (workers.c31, ['numa', 'pool']),
    'C17': (results.c17, ['evt']),
    'C29': (ownership.c29, ['drop', 'own', 'aw', 'xf', 'root']),
    'C30': (ownership.c30, ['drop', 'own', 'aw', 'xf', 'root', 'evt']),
    'C26': (throws.c26, ['g_core', 'g_algo', 'g_own', 'g_thr']),
    'C27': (local.c27, ['t_core', 't_algo', 'a_core', 'a_algo', 'ctx']),
    'C18': (witness.c18, []),
    'C19': (witness.c19, []),
    'C28': (headers.c28, ['y_core', 'y_own', 'y_thr', 'y_algo']),
    'C20': (algos.c20, ['al', 'al_thr']),
    'C21': (algos.c21, ['al']),
    'C22': (algos.c22, ['al']),
    'C23': (algos.c23, ['al']),
    'C24': (frames.c24, ['aw', 'xf']),
}
