"""python3 -m sa.run <property>: decide one property on the current source in /repo."""
import os
import sys
import time
import traceback

from .base import Report, finish
from .program import AnalysisBroken


def checks():
    from . import c_poly, c_contour, c_safe, c_geo, c_wave, c_find, c_init, c_graph, c_addon, c_dormer, c_merge, c_cross, c_ghost, c_clean, c_clust, c_apse
    return {
        'C01': c_poly.check_verts,
        'C02': c_contour.check_nodes,
        'C10': c_contour.check_contours,
        'C11': c_safe.check_none,
        'C12': c_safe.check_div,
        'C19': c_safe.check_names,
        'C20': c_safe.check_traversal,
        'C18': c_geo.check_geometry,
        'C13': c_wave.check_events,
        'C14': c_wave.check_used,
        'C15': c_wave.check_rings,
        'C16': c_wave.check_sinks,
        'C17': c_wave.check_nodes_consistent,
        'C21': c_find.check_found,
        'C22': c_init.check_initial,
        'C23': c_graph.check_graph,
        'C25': c_dormer.check_dormers,
        'C26': c_merge.check_merging,
        'C28': c_ghost.check_ghosts,
        'C29': c_clean.check_cleaning,
        'C30': c_clust.check_clusters,
        'C31': c_apse.check_apses,
        'C27': c_cross.check_crossing,
        'C24': c_addon.check_addon,
        'C03': c_poly.check_faces,
        'C04': c_poly.check_inputs,
        'C05': c_poly.check_calls_independent,
        'C06': c_poly.check_deterministic,
        'C07': c_poly.check_atomic,
        'C08': c_poly.check_heights,
        'C09': c_poly.check_position,
    }


def main(argv):
    if os.environ.get('PYTHONHASHSEED') != '0':
        # iteration order of sets must not change from run to run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'sa.run'] + argv[1:])
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rep = Report(pid)
    try:
        checks()[pid](rep, tier)
        return finish(rep, t0, tier, seed)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error of the analysis' % pid)
        return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv))
