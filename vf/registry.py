"""property id -> check function"""
CHECKS = {}


def prop(id):
    def deco(f):
        CHECKS[id] = f
        return f
    return deco


def run(id, chk):
    import p_dwt, p_multi, p_swt, p_wp, p_thr, p_bank, p_pad, p_cont, p_dom, p_lay, p_lin, p_hist, p_data, p_energy, p_copy  # noqa
    if id not in CHECKS:
        from core import MachineryError
        raise MachineryError("no check for " + id)
    CHECKS[id](chk)
