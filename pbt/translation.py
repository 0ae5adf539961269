"""Model-side translation of documents: PO entries and the expected result."""
from . import mdgen as G


def code_msg(lines):
    return ''.join(ln + '\n' for ln in lines)


def tr_lines(lines):
    return [G.tr_word(ln) for ln in lines]


def tr_ref(ref):
    return [ref[0], ref[1] + '/es', ref[2] and G.tr_word(ref[2])]


def ctx_tag(ctx):
    """Translations of the same message in other contexts differ."""
    return '' if ctx is None else 'x' * (1 + sum(map(ord, ctx)) % 7)


def resolved(data, form, refs):
    """Write links and images as references, if they match any.

    So are written by mdpo, and get the targets of translated references.
    """
    if isinstance(data, dict):
        return {k: resolved(v, form, refs) for k, v in data.items()}
    if not isinstance(data, list):
        return data
    data = [resolved(d, form, refs) for d in data]
    kind = data[0] if data and isinstance(data[0], str) else None
    if kind == 'a' and len(data) == 4:
        target = form.target_of(data[2], data[3])
        return data if target is None else ['r', data[1], target]
    if kind == 'u' and len(data) == 2:
        target = form.target_of(data[1], None)
        return data if target is None else ['r', [['t', data[1]]], target]
    if kind == 'r' and data[1:] and isinstance(data[1], list):
        _, href, title = form.ref(data[2])
        return ['r', data[1], form.target_of(href, title)]
    if kind == 'img' and len(data) == 4:
        target = form.target_of(data[2], data[3])
        if target is not None:
            return [*data[:2], *next(r[1:] for r in refs if r[0] == target)]
    return data


def plan(doc, chosen=lambda unit: True, refs=True, include_codeblocks=True):
    """Return (entries, translated doc) for the units `chosen` accepts.

    `chosen` is asked once per (context, message).  Units in disabled parts
    stay as they are.
    """
    entries, decided = [], {}
    form = G.Form(doc['refs'])

    def decide(unit):
        key = unit.key()
        if key not in decided:
            decided[key] = bool(chosen(unit))
        return decided[key] and unit.enabled

    def fn_inl(unit, inl):
        if not decide(unit):
            return None
        new = G.tr_inl(inl, ctx_tag(unit.ctx))
        entries.append((unit.ctx, unit.msgid, form.inl(new)))
        return new

    def fn_lines(unit, lines):
        if not decide(unit):
            return None
        new = tr_lines(lines)
        entries.append((unit.ctx, unit.msgid, new[0] if unit.kind == 'math'
                        else code_msg(new)))
        return new

    new = G.map_units(doc, fn_inl, fn_lines,
                      include_codeblocks=include_codeblocks)
    if refs:
        new['refs'] = [tr_ref(r) for r in doc['refs']]
        if doc['refs']:
            new['blocks'] = resolved(new['blocks'], form, new['refs'])
        entries.extend((None, G.ref_msgid(r), G.ref_msgid(n))
                       for r, n in zip(doc['refs'], new['refs']))
    seen, unique = set(), []
    for e in entries:
        if e[:2] not in seen:
            seen.add(e[:2])
            unique.append(e)
    return unique, new
