"""Properties that are stated but not claimed, with the reason."""


def _p(id, title, statement, over, quant, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))


NA = []
