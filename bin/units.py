"""The proof units: which harness, over which contracts, decides what."""

ALL = []


def U(name, file, harness, functions, props, **k):
    if isinstance(functions, str):
        functions = functions.split()
    d = dict(name=name, file=file, harness=harness, functions=functions, props=props.split())
    d.update(k)
    ALL.append(d)


def C(file, harness, fn, props, **k):
    """dfcc contract unit: enforce the contract of fn"""
    U("%s:%s%s" % (file[:-2], fn, k.pop("tag", "")), file, harness, fn, props, enforce=[fn], **k)


# ---- loop contracts, inserted mechanically into a copy of the current source text (bin/annot.py)
ANN = {
    "sqrt": {"util.c": [("rs_long_sqrt", 1, "SQ_BEGIN", "", "n b")]},
    "sumset": {"hashtable.h": [("NAME_find", 0, "HT_FIND_BEGIN", "HT_FIND_END", "i s he e m->buf"),
                               ("NAME_add", 0, "HT_ADD_BEGIN", "HT_ADD_END", "i s h")],
               "sumset.c": [], "hashtable.c": []},
    "build": {"hashtable.h": [("NAME_find", 0, "HT_FIND_BEGIN", "HT_FIND_END", "i s he e m->buf"),
                              ("NAME_add", 0, "HT_ADD_BEGIN", "HT_ADD_END", "i s h")],
              "sumset.c": [("rs_build_hash_table", 0, "BT_BEGIN", "", "i b")], "hashtable.c": []},
    "delta": {"delta.c": [("rs_delta_s_scan", 0, "SCAN_BEGIN(0)", "", "result"), ("rs_delta_s_flush", 0, "SCAN_BEGIN(1)", "", "result")]},
    "weak": {"rollsum.c": [("RollsumUpdate", 0, "RS_BEGIN(0, n >= 16)", "VP_END(buf)", "n buf s1 s2"),
                           ("RollsumUpdate", 1, "RS_BEGIN(1, 1)", "VP_END(buf)", "n buf *buf s1 s2")],
             "rabinkarp.c": [("rabinkarp_update", 0, "RK_BEGIN(0, n >= 16)", "VP_END(buf)", "n buf hash"),
                             ("rabinkarp_update", 1, "RK_BEGIN(1, 1)", "VP_END(buf)", "n buf *buf hash")]},
}

# readahead buffer and output queue
for h, f, e in (("h_readahead", "rs_scoop_readahead", 60), ("h_read", "rs_scoop_read", 125), ("h_read_rest", "rs_scoop_read_rest", 41),
                ("h_advance", "rs_scoop_advance", 12)):
    C("u_scoop.c", h, f, "C02", unwind=70, est=e)
for m, e in ((1, 100), (2, 160), (3, 220)):
    C("u_tube.c", "h_catchup", "rs_tube_catchup", "C02", unwind=3, defs=["VP_MODE=%d" % m], est=e, tag="/%d" % m, timeout=500)
for h, f in (("h_write", "rs_tube_write"), ("h_copy", "rs_tube_copy"), ("h_idle", "rs_tube_is_idle")):
    C("u_tube.c", h, f, "C02 C05", unwind=3)
# encoder
for h, f, p in (("h_int_len", "rs_int_len", "C05"), ("h_squirt_byte", "rs_squirt_byte", "C05 C03"), ("h_squirt_netint", "rs_squirt_netint", "C05 C03"),
                ("h_squirt_n4", "rs_squirt_n4", "C05 C03"), ("h_delta_header", "rs_emit_delta_header", "C05"),
                ("h_literal", "rs_emit_literal_cmd", "C05 C14"), ("h_copycmd", "rs_emit_copy_cmd", "C05 C14"), ("h_endcmd", "rs_emit_end_cmd", "C05")):
    C("u_emit.c", h, f, p + " C07", unwind=10, checks7=True)
U("u_emit:prototab", "u_emit.c", "h_table", "rs_prototab", "C06", unwind=10)

# patch state machine
for part, e in ((1, 60), (2, 90), (3, 94)):
    U("u_patch:command/%d" % part, "u_patch.c", "h_command", "rs_patch_s_cmdbyte rs_patch_s_params rs_patch_s_run rs_patch_s_literal rs_patch_s_copy",
      "C06 C14", defs=["VP_PART=%d" % part], unwind=9, est=e)
U("u_patch:header", "u_patch.c", "h_header", "rs_patch_begin rs_patch_s_header", "C06 C07", unwind=9, checks7=True)
U("u_patch:copying", "u_patch.c", "h_copying", "rs_patch_s_copying", "C06 C07", unwind=9)
U("u_patch:copying0", "u_patch.c", "h_copying0", "rs_patch_s_copying", "C06 C12", unwind=9)

# weak checksums
for h, f, e in (("h_rs_init", "weaksum_init weaksum_reset weaksum_digest RollsumInit RollsumDigest", 1), ("h_rs_roll", "weaksum_rollin weaksum_rollout weaksum_rotate", 1),
                ("h_rs_lemma", "", 1), ("h_tri", "", 19), ("h_off", "", 1), ("h_rk_init", "weaksum_init weaksum_reset rabinkarp_init", 1),
                ("h_rk_rollin", "rabinkarp_rollin", 1), ("h_rk_rollout", "rabinkarp_rollout", 1), ("h_rk_rotate", "rabinkarp_rotate", 1),
                ("h_rk_lemma", "", 1), ("h_rk_pow", "rabinkarp_pow", 1)):
    U("u_weak:" + h[2:], "u_weak.c", h, f, "C08", unwind=34, solver="z3", est=e)
U("u_weak:rs_update", "u_weak.c", "h_rs_update", "RollsumUpdate", "C08", unwind=34, solver="z3", annot=ANN["weak"])
U("u_weak:rk_update", "u_weak.c", "h_rk_update", "rabinkarp_update", "C08", unwind=34, solver="z3", annot=ANN["weak"])
U("u_weak:rk_mult", "u_weak.c", "h_rk_mult", "rabinkarp_update", "C08", unwind=34, annot=ANN["weak"], defs=["VP_POW"], replace=["rabinkarp_pow"], est=44)

# signature parameters
U("lemma:square", "square.smt2", "", "", "C11", smt2=["cvc5", "--lang=smt2"])
U("u_args:sqrt", "u_args.c", "h_sqrt", "rs_long_sqrt", "C11 C07", defs=["VP_UTIL"], annot=ANN["sqrt"], solver="z3", unwind=40)
U("u_args:ln2", "u_args.c", "h_ln2", "rs_long_ln2", "C11 C07", defs=["VP_UTIL"], unwind=70)
U("u_args:args", "u_args.c", "h_args", "rs_sig_args", "C11", solver="z3", unwind=10)
U("u_args:args/min", "u_args.c", "h_args", "rs_sig_args", "C11", defs=["VP_MIN"], solver="z3", unwind=10)
U("u_args:args/reach", "u_args.c", "h_args_reach", "rs_sig_args", "C11", solver="z3", unwind=10)

# signature generation and loading
U("u_sig:mksum", "u_sig.c", "h_mksum", "rs_sig_begin rs_sig_s_header rs_sig_s_generate rs_sig_do_block rs_signature_init", "C03 C11 C14", defs=["VP_MKSUM"], unwind=37)
U("u_sig:loadhdr", "u_sig.c", "h_loadhdr", "rs_loadsig_begin rs_loadsig_s_magic rs_loadsig_s_blocklen rs_loadsig_s_stronglen rs_signature_init", "C04",
  defs=["VP_LOAD"], unwind=37, est=30)
U("u_sig:siginit", "u_sig.c", "h_siginit", "rs_signature_init", "C04", defs=["VP_INIT"], unwind=37, est=10)
U("u_sig:loadblk", "u_sig.c", "h_loadblk", "rs_loadsig_s_weak rs_loadsig_s_strong rs_loadsig_add_sum", "C04 C14", defs=["VP_LOAD"], unwind=37, est=20)

# block table and its hash table
SS = dict(annot=ANN["sumset"], unwind=37)
U("u_sumset:find_sound", "u_sumset.c", "h_find_sound", "rs_signature_find_match hashtable_find rs_block_match_cmp rs_block_match_init", "C09 C01", est=60, **SS)
U("u_sumset:find_complete", "u_sumset.c", "h_find_complete", "rs_signature_find_match hashtable_find rs_block_match_cmp", "C09", est=86, **SS)
U("u_sumset:find_off", "u_sumset.c", "h_find_off", "rs_signature_find_match", "C09 C01", calls=["hashtable_find:vp_find", "rs_block_sig_idx:vp_idx"], **SS)
U("u_sumset:idx", "u_sumset.c", "h_idx", "rs_block_sig_idx rs_block_sig_ptr rs_block_sig_size", "C09 C01 C04", **SS)
U("u_sumset:add_block", "u_sumset.c", "h_add_block", "rs_signature_add_block rs_block_sig_init", "C04 C09", est=130, **SS)
U("u_sumset:table_add", "u_sumset.c", "h_table_add", "hashtable_add hashtable_setbloom", "C09", est=120, **SS)
U("u_sumset:table_new", "u_sumset.c", "h_table_new", "_hashtable_new", "C09", **SS)
U("u_sumset:build", "u_sumset.c", "h_build", "rs_build_hash_table", "C09", est=20, annot=ANN["build"], unwind=37, defs=["VP_BUILD"],
  calls=["hashtable_find:vp_bfind", "hashtable_add:vp_badd", "hashtable_new:vp_bnew"])
# delta generation
U("u_delta:slack", "u_delta.c", "h_slack", "rs_delta_begin rs_delta_s_header rs_delta_s_slack rs_delta_s_end", "C01 C05 C12", annot=ANN["delta"], unwind=10)
U("u_delta:scan", "u_delta.c", "h_scan", "rs_delta_begin rs_delta_s_header rs_delta_s_scan rs_getinput rs_findmatch rs_appendmatch rs_appendmiss rs_appendflush rs_processmatch rs_processmiss",
  "C01 C12", annot=ANN["delta"], unwind=10, split=True, est=500)
U("u_delta:flush", "u_delta.c", "h_flush", "rs_delta_s_flush rs_delta_s_end rs_getinput rs_findmatch rs_appendmatch rs_appendmiss rs_appendflush rs_processmatch rs_processmiss",
  "C01 C12", annot=ANN["delta"], unwind=10, split=True, est=600)
U("lemma:tri", "tri.lean", "", "", "C09", smt2=["lean"])


def for_property(p, tier):
    out = []
    for u in ALL:
        if p in u["props"] and (tier == "thorough" or not u.get("thorough_only")):
            u = dict(u)
            u["checks"] = u.get("checks", False) or p == "C07"
            out.append(u)
    return out


TECH = ("contract-based deductive verification of the real C functions with CBMC (goto-instrument --dfcc, function and loop contracts, "
        "CaDiCaL); bounded native stand-in, labelled bounded, for what is not under contract")


def level(p):
    return "proof"


def note(p):
    fns = []
    for u in ALL:
        if p in u["props"] and not u.get("bounded"):
            fns += [f for f in u["functions"] if f not in fns]
    bnd = [u["name"] for u in ALL if p in u["props"] and u.get("bounded")]
    return ("Proved for all inputs under contract: %s.%s Rest of the property: bounded native check of the unmodified library against "
            "independent oracles. Assumptions in evidence.assumptions and DESIGN.md." %
            (", ".join(fns) or "(none)", " Bounded CBMC units: %s." % ", ".join(bnd) if bnd else ""))


COMMON_TRUST = [
    "CBMC 6.11.0 (goto-cc C front end, goto-instrument --dfcc, symbolic execution, CaDiCaL), x86-64 LP64 memory model",
    "rs_log0 replaced by an empty function (logging)",
]


def trusted(p):
    return COMMON_TRUST


def assumptions(p):
    return []
