"""Which harness instances decide which property. A job is (profile, harness, parameters, part): part is None or
(i, n, d), the i-th of n parts of the paths, told apart by the first d choices the harness makes.
Profiles: dev (with debug assertions, as `cargo build`), rel (without, as `cargo build --release`)."""

import json
import os

KIND, SHAPE, SPAN, ERR = 1, 2, 4, 8
(CONCAT2, CONCAT3, UNION2, UNION3, SUFFIXES1, SUFFIXES2, LIST, SEP, NULLABLE, NODE, HIDDEN, LOOK, VALID, NONSTR, STRUCT, ATOM,
 CONCAT1, EOFS, UNION4, SUFFIXES3, CONCAT4, CACHE) = range(22)
NONE = 99
CTX = 10
SUBJ2 = (CONCAT2, UNION2, SUFFIXES1, SEP)
ATOMS = {0: 27, 1: 27, 2: 25, 3: 27, 4: 25}


def job(h, *p, prof="dev"):
    return (prof, h, tuple(p), None)


def split(n, d, h, *p, prof="dev"):
    return [(prof, h, tuple(p), (i, n, d)) for i in range(n)]


def parse(s, mode, natoms, n, proj, ctx=0, shards=1, prof="dev"):
    return [job("h_parse", s, mode, natoms, n, proj, ctx, i, shards, prof=prof) for i in range(shards)]


def nest(s, inner, mode, natoms, n, proj, shards=1, prof="dev"):
    return [job("h_nest", s, inner, mode, natoms, n, proj, i, shards, prof=prof) for i in range(shards)]


def abst(mode, n, kinds, proj, kids, hard, *levels, prof="dev"):
    return [job("h_abs", mode, n, kinds, proj, kids, hard, *levels, prof=prof)]


# constructs of one, and of several operands
ONE = (LIST, NULLABLE, NODE, HIDDEN, LOOK, VALID, NONSTR, STRUCT)
SEVERAL = (CONCAT2, UNION2, SUFFIXES1, SEP)
PRUNES = (UNION2, UNION3, UNION4, SUFFIXES1, SUFFIXES2, SUFFIXES3)


def abstract(subj, big=None, proj=KIND | SHAPE, tier="quick", modes=(0, 1, 2)):
    """one construct over arbitrary operands, below and above each other construct"""
    r = []
    t = tier == "thorough"
    for m in modes:
        if subj == SEP:
            r += abst(m, 3, 1, proj, 2, 2, subj) + abst(m, 2, 2, proj, 2, 2, subj) + abst(m, 4, 1, proj, 1, 1, subj)
        elif subj in SEVERAL:
            r += abst(m, 4, 1, proj, 2, 2, subj) + abst(m, 2 if t or subj != SUFFIXES1 else 1, 3, proj, 2, 2, subj)
        else:
            r += abst(m, 5 if subj == LIST else 6, 1, proj, 2, 2, subj) + abst(m, 3, 3, proj, 2, 2, subj)
        if big is not None:
            r += abst(m, 3, 1, proj, 2, 2, big)
            r += abst(m, 2, 1, proj, 2, 2, {CONCAT3: CONCAT4, UNION3: UNION4, SUFFIXES2: SUFFIXES3}[big])
        for x in SEVERAL + ONE:
            if x == NONSTR and m == 1 or x == STRUCT and m == 0 or m == 2 and x in (NONSTR, STRUCT):
                continue
            for a, b in ((subj, x), (x, subj)):
                hard = 1 if a in PRUNES or b == NODE else 2
                if a in SEVERAL and b in SEVERAL:
                    if SEP in (a, b):
                        r += abst(m, 2 if a != SEP else 1, 1, proj, 1, 0 if a == b else hard, a, b)
                    else:
                        r += abst(m, 2, 1, proj, 1 if a == b == SUFFIXES1 else 2, hard, a, b)
                elif a in SEVERAL or b in SEVERAL:
                    r += abst(m, 2, 1 if SEP in (a, b) else 2, proj, 1 if SEP in (a, b) else 2, hard, a, b)
                else:
                    r += abst(m, 3, 2, proj, 1 if LIST in (a, b) else 2, hard, a, b)
    if t:
        for m in modes:
            r += abst(m, 5 if subj != SEP else 4, 1, proj, 2, 2, subj) + abst(m, 4 if subj in ONE else 3, 3, proj, 1, 2, subj)
            if big is not None:
                r += abst(m, 4, 1, proj, 1, 2, big) + abst(m, 2, 3, proj, 1, 1, big)
            for x in SEVERAL + ONE:
                for a, b in ((subj, x), (x, subj)):
                    r += abst(m, 3, 1, proj, 1, 1, a, b)
                    if subj in ONE:
                        # three levels
                        for y in (LIST, NULLABLE, VALID, LOOK, UNION2, CONCAT2):
                            n = sum(k in SEVERAL for k in (a, b, y))
                            if n < 2:
                                r += abst(m, 2, 1, proj, 1, 1, a, b, y)
    return r


def rec(proj, modes=(0, 1, 2), n=5, templates=range(8), prof="dev"):
    return [job("h_rec", t, m, n, proj, prof=prof) for t in templates for m in modes]


def construct(subj, big=None, proj=KIND | SHAPE, tier="quick"):
    """one construct over its operands: subj with one or two operands, big with one more"""
    r = abstract(subj, big, proj, tier)
    two = subj in SUBJ2
    for m in (0, 1, 2):
        r += parse(subj, m, ATOMS[m], 3, proj)
        for n in (0, 1, 2):
            r += parse(subj, m, 12, n, proj)
        if two:
            r += parse(subj, m, 12, 3, proj, CTX, 4 if m < 2 else 1)
            r += parse(subj, m, 4, 7, proj)
        else:
            r += parse(subj, m, ATOMS[m], 3, proj, CTX, 2 if m < 2 and subj == VALID else 1)
            r += parse(subj, m, 12, 5, proj)
        if big is not None:
            r += parse(big, m, 7, 3, proj)
        # operands which are constructs themselves
        for inner in (CONCAT2, UNION2, SUFFIXES1, LIST, SEP):
            r += nest(subj, inner, m, 2 if two else 6, 3, proj)
        for inner in (NULLABLE, LOOK, NONSTR if m == 0 else HIDDEN):
            r += nest(subj, inner, m, 4 if two else 10, 3, proj)
    if tier == "thorough":
        for m in (0, 1, 2):
            if two:
                r += parse(subj, m, ATOMS[m], 3, proj, CTX, 16)
                r += parse(subj, m, 12, 5, proj, 0, 4)
                r += parse(subj, m, 3, 10, proj)
            else:
                r += parse(subj, m, ATOMS[m], 5, proj, CTX, 8)
            if big is not None:
                r += parse(big, m, 12, 3, proj, 0, 8)
                r += parse(big, m, 5, 3, proj, CTX, 8)
            for inner in (CONCAT2, UNION2, SUFFIXES1, LIST, SEP):
                r += nest(subj, inner, m, 4 if two else 12, 3, proj, 4)
            for inner in (CONCAT3, UNION3, SUFFIXES2):
                r += nest(subj, inner, m, 2 if two else 4, 3, proj, 2)
    return r


def jobs(prop, tier):
    t = tier == "thorough"
    K, KS = KIND, KIND | SHAPE
    r = []
    if prop == "T01":
        r += [job("h_tokenizer", 2, 4, 2), job("h_tokenizer", 1, 6, 3), job("h_combined", 2, 1, 3, 1), job("h_combined", 1, 2, 3, 2)]
        r += [job("h_nested", 5, 0), job("h_tokenizer", 3, 3, 2), job("h_combined", 2, 2, 2, 2)]
        # the code under the lexemes is arbitrary
        r += [job("h_tokenizer", 2, 3, 2, 1), job("h_tokenizer", 1, 4, 2, 1), job("h_combined", 2, 1, 3, 1, 1), job("h_combined", 1, 1, 4, 2, 1)]
        r += [job("h_tokenizer", 2, 3, 2, prof="rel"), job("h_combined", 2, 1, 2, 2, prof="rel"), job("h_nested", 4, 1)]
        if t:
            r += [job("h_tokenizer", 2, 5, 2), job("h_tokenizer", 1, 7, 4), job("h_combined", 3, 1, 3, 1), job("h_nested", 7, 0), job("h_combined", 2, 1, 4, 1)]
    elif prop == "T02":
        r += [job("h_tokenizer", 3, 3, 2), job("h_tokenizer", 2, 4, 3), job("h_tokenizer", 4, 2, 2), job("h_tokenizer", 1, 6, 3)]
        r += [job("h_combined", 1, 3, 2, 1), job("h_combined", 1, 2, 3, 2), job("h_tokenizer", 2, 3, 2, prof="rel")]
        r += [job("h_tokenizer", 2, 3, 2, 1), job("h_tokenizer", 1, 4, 2, 1), job("h_combined", 1, 2, 2, 1, 1)]
        if t:
            r += [job("h_tokenizer", 3, 4, 2), job("h_tokenizer", 4, 3, 2), job("h_tokenizer", 2, 5, 2), job("h_combined", 1, 3, 3, 1)]
    elif prop == "T03":
        r += [job("h_combined", 2, 1, 3, 1), job("h_combined", 2, 2, 2, 2), job("h_combined", 3, 1, 2, 1), job("h_mixin", 0, 4), job("h_mixin", 1, 4)]
        r += [job("h_nested", 5, 0), job("h_nested", 4, 1), *split(8, 6, "h_combined", 1, 3, 2, 2)]
        r += [job("h_combined", 2, 1, 2, 2, prof="rel"), job("h_mixin", 0, 3, prof="rel"), job("h_mixin", 1, 3, prof="rel")]
        if t:
            r += [job("h_combined", 2, 1, 4, 1), job("h_combined", 3, 1, 3, 1), job("h_combined", 2, 2, 3, 1), job("h_nested", 7, 0), job("h_mixin", 0, 6), job("h_mixin", 1, 6)]
    elif prop in ("T04", "T05"):
        k = 0 if prop == "T04" else 1
        if k:
            r += [job("h_words", k, 4, 3, 4), job("h_words", k, 3, 4, 5)]
        r += [job("h_words", k, 2, 3, 4), job("h_words", k, 3, 2, 3), job("h_words", k, 1, 5, 6), *split(4, 4, "h_words", k, 3, 3, 3), job("h_words", k, 2, 2, 3, prof="rel")]
        r += [job("h_words", k, 2, 4, 4), *split(12, 5, "h_words", k, 4, 2, 2)]
        if t:
            r += [job("h_words", k, 4, 2, 3), job("h_words", k, 3, 3, 4), job("h_words", k, 2, 4, 5), job("h_words", k, 5, 2, 2), job("h_words", k, 1, 8, 9)]
    elif prop == "T06":
        r += [job("h_wrap", k, n) for k, n in ((0, 2), (0, 3), (1, 3), (1, 5), (2, 3), (2, 5))] + [job("h_mapper_dup", 0)]
        r += [job("h_wrap", k, 2, prof="rel") for k in range(3)]
        if t:
            r += [job("h_wrap", 0, 4), job("h_wrap", 1, 8), job("h_wrap", 2, 8)]
    elif prop == "T07":
        rx = dict(prof="rx")
        r += [job("h_pattern", k, 3 if k in (5, 6, 16, 17) else 4, 1, **rx) for k in range(25)]
        r += [job("h_pattern", k, 6, 0, **rx) for k in (0, 1, 2, 7, 8, 9, 10, 13, 14, 15, 18)] + [job("h_pattern", k, 2, 2, 1, **rx) for k in range(20)]
        r += split(8, 2, "h_pattern_any", 3, 0, 4, **rx) + split(4, 2, "h_pattern_any", 2, 1, 3, **rx)
        r += [job("h_field", k, 2 if k in (5, 6, 16, 17, 22) else 3, 1, **rx) for k in range(25)] + [job("h_field", k, 2, 0, 1, **rx) for k in range(25)]
        for s in SEVERAL:
            r += [job("h_rx", s, 8, 2, 0, 0, **rx), job("h_rx", s, 5, 3, 0, 1, **rx), job("h_rx", s, 3, 2, CTX, 1, **rx)]
        for s in (LIST, NULLABLE, NODE, HIDDEN, LOOK, VALID, ATOM):
            r += [job("h_rx", s, 8, 3, 0, 0, **rx), job("h_rx", s, 6, 2, CTX if s != VALID else 0, 1, **rx)]
        if t:
            r += [job("h_pattern", k, 5, 0, **rx) for k in range(20) if k not in (5, 6)] + [job("h_pattern", 11, 7, 0, **rx), job("h_pattern", 5, 4, 0, **rx), job("h_pattern", 6, 4, 0, **rx)]
            r += split(24, 3, "h_pattern_any", 2, 0, 7, **rx) + split(16, 3, "h_pattern_any", 4, 0, 4, **rx)
            r += [job("h_rx", s, 8, 3, CTX, 1, **rx) for s in SEVERAL + (LIST, NULLABLE, NODE, HIDDEN, LOOK, ATOM)]
    elif prop == "E01":
        rx = dict(prof="rx")
        for k in (0, 1):
            r += [job("h_json", k, n, 0, **rx) for n in (0, 1, 2)] + [job("h_json", k, 3, l, **rx) for l in range(1, 8)]
            r += [job("h_json", k, 4, l, **rx) for l in range(2, 8)] + [job("h_json", k, n, l, **rx) for n in (0, 1, 2) for l in range(8, 18) if (k, n, l) != (1, 2, 13)]
        r += [job("h_json", 0, 3, 14, **rx), job("h_json", 0, 4, 1, **rx)] + [job("h_json", 0, 5, l, **rx) for l in (2, 3, 4, 5, 6, 7)] + [job("h_json", 1, 5, l, **rx) for l in (5, 6)]
        if t:
            r += [job("h_json", 0, 3, 0, **rx), job("h_json", 1, 2, 13, **rx), job("h_json", 1, 4, 1, **rx), job("h_json", 1, 5, 7, **rx), job("h_json", 0, 5, 1, **rx)]
            r += [job("h_json", 0, 6, l, **rx) for l in (2, 3, 4, 5, 6, 7)] + [job("h_json", 1, 5, l, **rx) for l in (2, 3, 4)] + [job("h_json", k, 3, l, **rx) for k in (0, 1) for l in (8, 14)]
    elif prop == "C01":
        r += [job("h_position", n) for n in (6, 7, 8)] + [job("h_position", 5, prof="rel")]
        if t:
            r += [job("h_position", 10)]
    elif prop == "C02":
        r += [job("h_stream", n) for n in (3, 4, 5)] + [job("h_stream", 3, prof="rel")]
        if t:
            r += [job("h_stream", 6), job("h_stream", 7)]
    elif prop == "P01":
        r += construct(CONCAT2, CONCAT3, tier=tier) + parse(CONCAT1, 0, 26, 3, KS) + parse(CONCAT1, 2, 24, 3, KS)
    elif prop == "P02":
        r += construct(UNION2, UNION3, tier=tier)
    elif prop == "P03":
        r += construct(SUFFIXES1, SUFFIXES2, tier=tier)
    elif prop == "P04":
        r += construct(LIST, tier=tier)
        for m in (0, 1, 2):
            r += parse(LIST, m, 12, 7 if m < 2 else 8, KS)
            r += nest(LIST, UNION3, m, 4, 4, KS) + nest(LIST, CONCAT3, m, 4, 4, KS)
    elif prop == "P05":
        r += construct(SEP, tier=tier)
        for m in (0, 1, 2):
            r += parse(SEP, m, 8, 5, KS)
    elif prop == "P06":
        r += construct(NULLABLE, tier=tier)
        for s in (CONCAT2, UNION2, LIST):
            r += nest(s, NULLABLE, 0, 5, 3, KS) + nest(s, NULLABLE, 2, 5, 3, KS)
    elif prop == "P07":
        r += construct(LOOK, tier=tier)
        for m in (0, 1, 2):
            r += parse(EOFS, m, 1, 3, KS, CTX) + parse(EOFS, m, 1, 1, KS, CTX) + parse(EOFS, m, 1, 0, KS, CTX)
        for s in (CONCAT2, UNION2):
            r += nest(s, LOOK, 0, 5, 3, KS) + nest(s, LOOK, 2, 5, 3, KS)
    elif prop == "P08":
        r += construct(NODE, tier=tier) + construct(HIDDEN, tier=tier)
        for s in (CONCAT2, UNION2, LIST):
            r += nest(s, NODE, 0, 10, 3, KS) + nest(s, HIDDEN, 0, 10, 3, KS) + nest(s, HIDDEN, 2, 10, 3, KS)
    elif prop == "P09":
        r += construct(VALID, tier=tier)
        for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
            r += nest(s, VALID, 0, 1, 3, KS) + nest(s, VALID, 1, 1, 3, KS) + nest(s, VALID, 2, 1, 3, KS)
        for m in (3, 4):
            r += parse(VALID, m, 12, 3, KS | ERR)
    elif prop == "P10":
        r += construct(NONSTR, tier=tier) + construct(STRUCT, tier=tier)
        for s in (CONCAT2, UNION2, LIST, SEP, SUFFIXES1):
            r += nest(s, NONSTR, 0, 5, 3, KS) + nest(s, STRUCT, 1, 5, 3, KS)
        r += nest(NONSTR, STRUCT, 0, 26, 3, KS) + nest(STRUCT, NONSTR, 1, 26, 3, KS) + nest(NONSTR, CONCAT2, 0, 10, 4, KS)
        r += nest(CONCAT2, NONSTR, 0, 3, 5, KS)
    elif prop == "P11":
        for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
            for m in (0, 1, 2):
                r += parse(s, m, 14, 3, SPAN) + parse(s, m, 6, 3, SPAN, CTX, 2)
        for s in (LIST, NULLABLE, NODE, HIDDEN, LOOK, VALID, NONSTR, STRUCT, ATOM, EOFS):
            for m in (0, 1, 2):
                r += parse(s, m, ATOMS[m], 3, SPAN, CTX if s != VALID else 0) + parse(s, m, 12, 5, SPAN)
        for inner in (CONCAT2, SUFFIXES1, LIST, SEP, NULLABLE, NONSTR):
            for m in (0, 1, 2):
                r += nest(NODE, inner, m, 8, 3, SPAN)
        r += rec(SPAN) + rec(SPAN, (3, 4), 4, (0, 2, 3, 6))
        for s in SEVERAL + ONE:
            for m in (0, 1, 2):
                r += abst(m, 3, 1, SPAN, 1 if s == SEP else 2, 0, s) + abst(m, 2, 2, SPAN, 1, 0, s)
                if s != NODE:
                    r += abst(m, 2, 2 if s != SEP else 1, SPAN, 1, 0, NODE, s)
                    r += abst(m, 2, 2 if s not in (SEP, SUFFIXES1) else 1, SPAN, 1, 0, SUFFIXES1, s) if s in ONE else []
        if t:
            for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
                for m in (0, 1, 2):
                    r += parse(s, m, ATOMS[m], 3, SPAN, CTX, 8)
            r += rec(SPAN, n=7)
    elif prop == "P12":
        for m, a in ((0, 10), (2, 10), (3, 6), (4, 6)):
            r += [job("h_cache", a, m, 3, i, 4) for i in range(4)]
            r += [job("h_cache", 0, m, 2, 0, 1, 2, 2), job("h_cache", 0, m, 3, 0, 1, 0, 1)]
        r += [job("h_cache", 4, 0, 5), job("h_cache", 4, 2, 5), job("h_cache", 5, 0, 3, prof="rel")]
        if t:
            for m in (0, 2, 3):
                r += [job("h_cache", ATOMS[m], m, 3, i, 16) for i in range(16)]
    elif prop == "P13":
        for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
            r += parse(s, 3, 10, 3, ERR) + parse(s, 3, 5, 3, ERR, CTX, 2) + parse(s, 4, 6, 2, ERR)
            r += parse(s, 3, 7, 3, ERR, prof="rel")
        for s in (LIST, NULLABLE, NODE, LOOK, VALID, NONSTR, ATOM, EOFS):
            r += parse(s, 3, 26 if s != VALID else 12, 3, ERR, CTX if s not in (VALID, NONSTR) else 0) + parse(s, 4, 10, 2, ERR)
        r += rec(ERR, (3,), 5) + rec(ERR, (4,), 3) + rec(ERR, (3,), 4, prof="rel") + rec(ERR, (4,), 2, prof="rel")
        r += parse(CONCAT3, 3, 6, 4, ERR)
        for m in (3, 4):
            for s in SEVERAL + ONE:
                r += abst(m, 3 if s in ONE else 2, 2, ERR, 1, 0, s)
                if s in ONE:
                    r += abst(m, 2, 2, ERR, 1, 0, UNION2, s) + abst(m, 2, 1, ERR, 1, 0, CONCAT2, s)
            for s in (CONCAT2, UNION2):
                r += abst(m, 2, 1, ERR, 1, 0, UNION2, s) + abst(m, 2, 1, ERR, 1, 0, LIST, s) + abst(m, 1, 1, ERR, 1, 0, SUFFIXES1, s)
            r += abst(m, 2, 1, ERR, 1, 0, UNION3) + abst(m, 2, 1, ERR, 1, 0, SUFFIXES2) + abst(m, 2, 1, ERR, 1, 0, CONCAT3)
        if t:
            for m in (3, 4):
                for a in SEVERAL + ONE:
                    r += [j for b in SEVERAL + ONE for j in abst(m, 2, 2, ERR, 1, 0, a, b)]
            for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
                r += parse(s, 3, 26, 3, ERR, CTX, 16) + parse(s, 4, 12, 3, ERR, 0, 8)
            r += rec(ERR, (3,), 7) + rec(ERR, (4,), 4)
    elif prop == "P14":
        r += split(16, 5, "h_leftrec", 2, 12, 5, 1) + split(16, 4, "h_leftrec", 3, 6, 2, 1)
        r += split(8, 4, "h_leftrec", 3, 4, 2, 1, 5) + [job("h_known", 0)]
        if t:
            r += split(32, 6, "h_leftrec", 3, 12, 2, 1) + split(16, 5, "h_leftrec", 2, 12, 5, 2) + split(32, 6, "h_leftrec", 4, 2, 2, 1)
    elif prop == "P25":
        r += split(8, 4, "h_unset", 2, 12, 3, 1) + split(8, 4, "h_unset", 4, 2, 1, 1, 0, 1) + split(8, 4, "h_unset", 4, 2, 2, 1, 0, 2, 11)
        r += split(8, 4, "h_unset", 3, 2, 2, 1, 5)
        if t:
            r += split(16, 5, "h_unset", 3, 12, 1, 1) + split(32, 6, "h_unset", 4, 4, 1, 1, 0, 1) + split(32, 6, "h_unset", 4, 2, 2, 1, 0, 2, 4)
    elif prop == "P15":
        r += [job("h_words", k, a, b, c) for k in (2, 3) for a, b, c in ((2, 3, 4), (3, 2, 3), (1, 5, 6), (3, 3, 3), (2, 4, 4), (4, 2, 2))]
        r += [job("h_words", 4, 1, 3, 4), job("h_words", 4, 1, 5, 6), job("h_words", 2, 2, 2, 3, prof="rel"), job("h_words", 3, 2, 2, 3, prof="rel")]
        r += parse(ATOM, 2, 24, 3, KS, CTX) + parse(CONCAT2, 2, 24, 4, KS) + parse(UNION2, 2, 24, 4, KS) + parse(ATOM, 2, 24, 6, KS)
        if t:
            r += [job("h_words", k, a, b, c) for k in (2, 3) for a, b, c in ((4, 2, 3), (3, 3, 4), (2, 4, 5), (1, 8, 9))]
            r += parse(CONCAT3, 2, 24, 4, KS, 0, 8)
    elif prop == "P16":
        r += [job("h_agree", k, n) for k in range(8) for n in ((3, 5) if k not in (3, 6) else (3, 4))]
        r += [job("h_agree", k, 3, prof="rel") for k in (0, 2, 3, 6)]
        r += [job("h_agree", 100 + s, 2, 6 if s in SEVERAL else 23, 0) for s in SEVERAL + ONE if s != NONSTR]
        r += [job("h_agree", 100 + s, 2, 3 if s in SEVERAL else 5, CTX) for s in SEVERAL + ONE + (ATOM,) if s not in (NONSTR, VALID)]
        r += [job("h_agree", 100 + s, 3, 4, 0) for s in SEVERAL]
        if t:
            r += [job("h_agree", k, 7) for k in range(8)]
            r += [job("h_agree", 100 + s, 3, 12 if s in SEVERAL else 23, 0) for s in SEVERAL + ONE + (ATOM,) if s != NONSTR]
            r += [job("h_agree", 100 + s, 3, 4 if s in SEVERAL else 8, CTX) for s in SEVERAL + ONE + (ATOM,) if s not in (NONSTR, VALID)]
    elif prop == "P17":
        r += [job("h_bytes", k, n) for k in range(8) for n in (3, 4)] + rec(KS, (0,), 6) + rec(KS, (1, 2), 5)
        r += [job("h_bytes", k, 3, prof="rel") for k in range(8)]
        if t:
            r += [job("h_bytes", k, 5) for k in range(8)] + rec(KS, (0, 1, 2), 8)
    elif prop == "P18":
        for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
            r += split(4, 3, "h_history", s, 0, 7, 2, 0) + split(4, 3, "h_history", s, 1, 6, 2, 0)
        r += [job("h_history", 100 + k, l, 0, n, 0) for k in range(8) for l, n in ((0, 3), (1, 2))]
        r += [j for s in (LIST, LOOK, NULLABLE) for j in split(4, 3, "h_history", s, 0, 8, 2, CTX)] + split(4, 3, "h_history", VALID, 0, 4, 2, CTX)
        if t:
            r += [job("h_history", s, 0, 12, 3, CTX) for s in (CONCAT2, UNION2, LIST)] + [job("h_history", 100 + k, 0, 0, 4, 0) for k in range(8)]
    elif prop == "P19":
        r += [job("h_tree", 5, 3), job("h_tree", 6, 2), job("h_tree", 6, 4), job("h_tree", 5, 3, prof="rel"), job("h_print", 0)]
        if t:
            r += [job("h_tree", 7, 4)]
    elif prop == "P20":
        r += [job("h_debug", s, l, 12 if s in SUBJ2 else 24, 3) for s in (CONCAT2, UNION2, SUFFIXES1, SEP, LIST, NULLABLE, NODE, LOOK, ATOM) for l in (0, 1)]
        r += [job("h_debug", 100 + k, l, 0, 4) for k in (0, 2, 3, 6) for l in (0, 1)]
        r += [job("h_debug", NONSTR, 0, 26, 3)]
        r += [job("h_debug", s, l, NONE, 2 if s in ONE else 1) for s in SEVERAL + ONE for l in (0, 1)]
        r += [job("h_debug", s, l, NONE, 2) for s in (CONCAT2, UNION2, SUFFIXES1) for l in (0, 1)]
    elif prop == "P21":
        # subjects below alternatives and suffixes, behind nullable symbols: acceptance and tree do not depend on pruning
        for s in (CONCAT2, SUFFIXES1, SEP, UNION2):
            for c in (2, 3, 4, 6):
                r += parse(s, 0, 12, 3, KS, c)
            r += nest(UNION2, s, 0, 4, 3, KS, 2)
        for s in (LIST, NULLABLE, NODE, HIDDEN, LOOK, NONSTR, STRUCT, ATOM):
            for c in (2, 3, 4, 6):
                r += parse(s, 0, 26, 3, KS, c)
        for s in (NULLABLE, LOOK, NODE, NONSTR):
            r += nest(UNION2, s, 0, 8 if s != LOOK else 6, 3, KS, 2) + nest(SUFFIXES1, s, 0, 5, 3, KS)
        r += parse(UNION3, 0, 10, 2, KS) + rec(KS, (0,), 5)
        for x in SEVERAL + ONE:
            if x not in (SEP, STRUCT):
                r += abst(0, 2, 3 if x in ONE else 1, KS, 1, 1, UNION2, x)
                r += abst(0, 2 if x in ONE else 1, 3 if x in ONE else 2, KS, 1, 1, SUFFIXES1, x)
        r += abst(0, 1, 3, KS, 1, 1, UNION3) + abst(0, 1, 3, KS, 1, 1, SUFFIXES2)
        if t:
            for s in (CONCAT2, SUFFIXES1, SEP, UNION2):
                r += [j for c in (2, 3, 4, 6) for j in parse(s, 0, 26, 3, KS, c, 4)] + nest(UNION2, s, 0, 6, 3, KS, 16)
            r += parse(UNION3, 0, 26, 2, KS, 0, 16) + nest(UNION3, CONCAT2, 0, 3, 3, KS, 8)
    elif prop == "P22":
        r += [job("h_tokset", 4, 0), job("h_tokset", 4, 1), job("h_tokset", 3, 0, prof="rel"), job("h_tokset", 3, 1, prof="rel")]
        for m in (0, 1):
            r += parse(ATOM, m, 26, 3, KS | SPAN, CTX) + parse(CONCAT2, m, 18, 3, KS | SPAN)
        if t:
            r += [job("h_tokset", 6, 0), job("h_tokset", 6, 1)]
    elif prop == "P23":
        for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
            r += [job("h_variant", s, 0, NONE, 2 if s != SEP else 1, 0, 1), job("h_variant", s, 4, NONE, 2 if s != SEP else 1, 0, 1)]
            r += [job("h_variant", s, 0, 7, 3, 0, 1), job("h_variant", s, 4, 6, 2, 0, 1), job("h_variant", s, 0, 4, 2, 0, 1, prof="rel")]
        for s in (LIST, NULLABLE, NODE, HIDDEN, LOOK, VALID, NONSTR, STRUCT, ATOM, EOFS, CACHE):
            r += [job("h_variant", s, 0, 26 if s != VALID else 10, 2, 0, 1), job("h_variant", s, 4, 24 if s != VALID else 8, 2, 0, 1), job("h_variant", s, 0, NONE, 2, 0, 1), job("h_variant", s, 4, NONE, 2, 0, 1)]
        # any level
        for s in SEVERAL + ONE + (CACHE,):
            r += [job("h_variant", s, 0, NONE, 1 if s == SEP else 2, 0, 1, 6), job("h_variant", s, 4, NONE, 1 if s == SEP else 2, 0, 1, 6)]
        r += [job("h_variant", ATOM, m, 27 if m == 0 else 25, 2, 0, 1, l) for m in (0, 4) for l in (2, 3, 4)]
        r += [job("h_variant", 100 + k, m, 0, 4 if m == 0 else 3, 0, 1) for k in range(8) for m in (0, 4)]
        r += [job("h_nested", 4, 6), job("h_nested", 5, 1)]
        r += [job("h_mixin", 0, 2, 6), job("h_mixin", 1, 3, 6), job("h_wrap", 0, 2, 6), job("h_wrap", 1, 4, 6), job("h_wrap", 2, 4, 6)]
        r += [job("h_words", k, 2, 2, 3, 6) for k in range(4)] + [job("h_words", 4, 1, 3, 4, 6)]
        r += [job("h_pattern", k, 2, 1, 6, prof="rx") for k in (0, 3, 7, 21)] + [job("h_field", k, 2, 1, 6, prof="rx") for k in (0, 3, 7, 21)]
        if t:
            for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
                r += [job("h_variant", s, 0, 14, 3, 0, 1), job("h_variant", s, 4, 12, 3, 0, 1)]
            for s in (LIST, NULLABLE, NODE, HIDDEN, LOOK, VALID, NONSTR, STRUCT, ATOM, EOFS, CACHE):
                r += [job("h_variant", s, 0, 26 if s != VALID else 10, 3, CTX if s not in (NONSTR, VALID) else 0, 1)]
            r += [job("h_words", k, 3, 2, 3, 6) for k in range(4)]
    elif prop == "P24":
        for s in (CONCAT2, UNION2, SUFFIXES1, SEP):
            r += [job("h_variant", s, 0, NONE, 2 if s != SEP else 1, 0, 2), job("h_variant", s, 4, NONE, 2 if s != SEP else 1, 0, 2)]
            r += [job("h_variant", s, 0, 10, 3, 0, 2), job("h_variant", s, 4, 8, 2, 0, 2)]
        for s in (LIST, NULLABLE, NODE, HIDDEN, LOOK, VALID, NONSTR, STRUCT, ATOM, EOFS, CACHE):
            r += [job("h_variant", s, 0, 26, 3, 0, 2), job("h_variant", s, 4, 24, 2, 0, 2), job("h_variant", s, 0, NONE, 2, 0, 2), job("h_variant", s, 4, NONE, 2, 0, 2)]
        r += [job("h_variant", 100 + k, m, 0, 4 if m == 0 else 3, 0, 2) for k in range(8) for m in (0, 4)]
    else:
        raise SystemExit("no property " + prop)
    return list(dict.fromkeys(r))


# what has to be reached, by harness: a run which never gets there has decided nothing
COVERS = {
    "h_abs": ["accepted", "rejected"],
    "h_parse": ["accepted", "rejected"], "h_nest": ["accepted", "rejected"], "h_rec": ["accepted", "rejected"],
    "h_words": ["match", "no match"], "h_tokenizer": ["tokenized", "refused"], "h_combined": ["tokenized", "refused"],
    "h_mixin": ["kept", "none"], "h_wrap": ["some", "none"], "h_mapper_dup": ["made", "refused"], "h_nested": ["tokenized", "refused"],
    "h_tokset": ["match", "no match"], "h_position": ["end", "break"], "h_stream": ["end", "behind"], "h_tree": ["end"], "h_print": ["end"],
    "h_history": ["accepted", "rejected"], "h_variant": ["accepted", "rejected"], "h_agree": ["accepted", "rejected", "foreign letter"],
    "h_bytes": ["accepted", "rejected", "not tokenized"], "h_cache": ["accepted", "rejected"], "h_debug": ["accepted", "rejected"],
    "h_pattern": ["match", "no match", "refused"], "h_pattern_any": ["match", "no match", "refused"], "h_field": ["accepted", "rejected"],
    "h_rx": ["accepted", "rejected"], "h_json": ["accepted", "rejected"],
    "h_leftrec": ["left recursive", "not left recursive", "accepted"], "h_unset": ["left recursive", "not left recursive", "accepted", "without symbols"], "h_known": [],
}
# harnesses which together have to reach them
FAMILY = {"h_abs": "grammar", "h_parse": "grammar", "h_nest": "grammar", "h_rec": "grammar"}
ALL = ["T01", "T02", "T03", "T04", "T05", "T06", "T07", "E01", "C01", "C02"] + ["P%02d" % i for i in range(1, 26)]

try:
    COST = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cost.json")))
except OSError:
    COST = {}


def cost(j):
    """seconds an instance took when it was written down; only the order of the instances depends on it"""
    return COST.get("%s %s %s %s" % (j[0], j[1], ",".join(map(str, j[2])), j[3] or ""), 20 if j[3] else 5)
