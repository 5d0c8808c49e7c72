#!/usr/bin/env python3
# Writes tools/design_seeds.md from seeded/*/meta.json.
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {"call_wrap": "unexpected_long (missed at first)", "name_shadow": "spelling, names", "arr256": "cmpbig", "cmp_prefix": "the mock does not link", "cpp_copy": "cpp", "cpp_reset_idle": "cpp", "enum_eq": "types_base", "enum_neg": "laya", "guard31": "headers (missed at first)", "ignore_prefix": "select2 (missed at first)", "zero_width": "laya", "capacity_off": "queue", "cpp_order": "cppcmp (same object; added for it)", "cwd_late": "tool", "dwfl_leak": "backtrace", "fifo_head": "match", "int128_sign": "matcher8", "last_verdict": "register",
       "long_error": "errors", "match_negative": "verdict_reject (added for it)", "name_len": "matcher9", "order_prefix": "cstring_cmp", "out_size_short": "outs_huge (added for it)", "repeat_same": "line",
       "reset_window": "reset, reset_long", "same_name_header": "register", "same_size_kept": "files", "small_data": "queue", "snprintf_len": "glue", "stale_tail": "files", "str_prefix": "matcher9", "ulong_text": "cmps_values"}
out = ["## Planted bugs and what catches them", "",
       "Each change lies in seeded/<id>; the check named reports it (quick tier) with a counterexample replayed on the real code.", "",
       "| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s: %s |" % (i, m["what_it_breaks"], m["needs"], m["property"], HOW.get(i, "see the check")))
out += ["", "Three of these were missed at first and led to harnesses: `match_negative` (matchers now reject with any non-zero value),",
        "`out_size_short` (outputs of more than 64 KiB), `cpp_order` (one object as both value and expectation).  `guard31` and `ignore_prefix` were missed because gcc, which has to",
        "confirm that a test no longer compiles, was run with its warnings, and with them the error for undeclared functions, switched off.  `call_wrap` needs more calls than",
        "the long histories had: these now go on to 270 (thorough: 700) calls.", "",
        "Caught as well, but not kept because existing tests fail with them: `order_toggle` (C04), `unexpected_pop` (C03), `cstring_move` (C09),",
        "`check_clears` (C01), `cstring_realloc` (C09), `is_empty` (C07), `order_pop` (C04), `stale_error_arr` (C06), `ull_text` (C12),",
        "`uncounted_unexpected` (C03), `order_stale` (C05), `order_untracked` (C04), `noreturn_kw` (G07), `zero_width` (G06).", "",
        "Apart from these, mechanical mutants (operators, constants, conditions, deleted statements) of the framework and of the generator's",
        "model, command line and writer were run against the checks during development; survivors were either equivalent, changed only what",
        "is outside the claims, or led to new harnesses (boundary lengths, long histories, failing allocations, long names, reset).", ""]
open(V + "/tools/design_seeds.md", "w").write("\n".join(out))
