"""bin/check <property>: decide one property of the code in /repo (see DESIGN.md)"""
import importlib
import os
import sys
import traceback

WHERE = {
    'C01': 'transform_props', 'C02': 'transform_props', 'C03': 'transform_props',
    'C04': 'geom_props', 'C05': 'geom_props', 'C06': 'bbox_props', 'C07': 'line_props',
    'C08': 'bezier_props', 'C09': 'bezier_props', 'C10': 'bezier_props', 'C24': 'selfx_props',
    'C11': 'model_props', 'C12': 'model_props', 'C13': 'model_props', 'C14': 'walk_props', 'C15': 'names_props',
    'C16': 'model_props', 'C25': 'model_props',
    'C17': 'anim_props', 'C18': 'morph_props', 'C19': 'anim_props', 'C21': 'frames_props',
    'C29': 'offset_props', 'C30': 'match_props', 'C28': 'cross_props', 'C27': 'canvas_props', 'C26': 'build_props', 'C20': 'pens_props', 'C22': 'field_props', 'C23': 'arcs_props',
}


def main():
    prop = sys.argv[1]
    from harness.core import Ctx
    ctx = Ctx(prop)
    try:
        mod = importlib.import_module('harness.' + WHERE[prop])
        getattr(mod, prop.lower())(ctx)
    except Exception:
        traceback.print_exc()
        if ctx.failures:
            return ctx.finish()
        print('ERROR: the check of %s could not be completed' % prop)
        return 2
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
