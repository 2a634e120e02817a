"""What every check runs: property -> tier -> list of jobs.

A job is (harness entry, parameters, options).  The parameters bound the inputs (their meaning is documented at the
harness entry, `grep -n "/// params" harness/src/*.rs`); within them everything else is symbolic.  `@n` after the
parameters is the preemption bound of a concurrent harness (default 2)."""


def many(spec):
    """'filter 2,3,1; 3,2,1 | sort 2,2,1' """
    r = []
    for part in spec.split("|"):
        name, rest = part.strip().split(None, 1)
        for p in rest.split(";"):
            p = p.strip()
            o = {}
            if "@" in p:
                p, k = p.split("@")
                o["preempt"] = int(k)
            r.append(("h_" + name, p, o))
    return r


def rounds(spec):
    """the same, with parameter 9 set: an input that is pending stays so until the consumer has nothing left to do"""
    r = []
    for e, p, o in many(spec):
        p = p.split(",")
        p += ["0"] * (10 - len(p))
        p[9] = "1"
        r.append((e, ",".join(p), o))
    return r


# every combinator at small bounds: C26 and C27 look at all of them
FLAT = "1,1,1,1,1,1,0,0,0,0,1; 2,1,1,2,1,1,0,0,0,0,1,0,3; 2,2,1,1,1,1,0,0,0,0,1,1,3"
VECS = (
    "filter 2,2,1 | filter_map 2,2,1 | sort 1,2,1; 2,1,1 | chain 1,1,1,1,1,1 | flatten_vec 1,1,1,1,1,0; " + FLAT + " | map_vec 2,2,1 | "
    "enumerate 2,2,1 | map_signal 2,1,1,1,1; 1,2,1,1,1 | filter_signal 1,2,1,1,0; 2,1,1,1,1 | delay_remove 2,2,1,1; 1,2,1,1 | len 2,2,1 | is_empty 2,2,1 | "
    "sum 2,2,1 | to_signal_map 2,2,1 | to_signal_cloned 2,2,1 | switch_signal_vec 2,1,1,1,1 | sig_to_signal_vec 3,2,2 | "
    "vec_from_stream 3,3 | vec_always 3 | vec_to_stream 2,2,1"
)
SIGS = (
    "sig_map 4,2 | sig_inspect 4,2 | sig_eq 4,2 | sig_not 4,2 | sig_option 4,2 | sig_and_or 2,2,2,2 | map_ref 2,2,2,2 | map_mut 2,2,2,2 | "
    "map_ref3 2,1,2,1,2,1 | dedupe 4,2 | sig_filter_map 4,2 | first 3,2 | stop_if 4,2 | sig_flatten 2,2,2,2 | sig_switch 2,2,2,2 | "
    "map_future 3,2,2 | throttle 3,2,2 | sig_to_stream 4,2 | to_future 4,2 | wait_for 4,2 | sample 3,2,3,2 | from_future 4 | "
    "sig_from_stream 4,2"
)
EACH = "sig_for_each 3,2,2 | vec_for_each 2,1,1,2 | map_for_each 2,2,2"
FORMS = "map_forms 2,2,0; 2,2,1; 2,2,2; 2,1,3; 1,1,4; 1,0,5; 2,2,6"
MAPS = "map_value 3,1 | map_value_signal 2,1,1,1; 1,2,2,1 | key_cloned 3,2"
ROUNDS = (
    "chain 2,1,1,2,1,1 | flatten_vec 1,1,1,1,1,1,0,0,0,0,1 | map_signal 2,1,1,1,1 | filter_signal 1,1,1,2,1 | delay_remove 2,2,1,1 | switch_signal_vec 2,1,1,1,1 | "
    "map_value_signal 2,1,1,1 | sig_flatten 3,2,2,2 | sig_switch 3,2,2,2 | map_future 4,2,2 | throttle 4,2,2 | sample 3,2,3,2 | sig_for_each 4,2,2 | "
    "vec_for_each 2,2,1,2 | map_for_each 2,2,2 | sig_and_or 3,2,3,2 | map_ref 3,2,3,2 | map_mut 3,2,3,2 | map_ref3 2,1,2,1,2,1"
)
ALL = many(" | ".join([SIGS, FORMS, MAPS, EACH, VECS])) + rounds(ROUNDS)

MUT_CONC = "mutable_conc 1,0,2,1,0; 1,0,2,2,0; 2,0,2,1,0; 1,1,2,1,0; 1,0,2,1,1; 1,0,2,1,2; 1,0,2,1,3; 1,0,2,1,4; 1,0,2,1,5; 2,0,3,1,0@3"

QUICK = {
    "C01": many(MUT_CONC + " | mutable_swap 0,2; 1,2; 2,2 | mutable_drop 1,2,0,0 | mutable_seq 1,1,1"),
    "C02": many("mutable_drop 1,2,0,0; 1,2,1,0; 1,2,2,0; 1,2,3,0; 1,2,0,1; 1,2,1,1; 1,2,2,1; 2,2,0,0; 2,3,1,0 | mutable_conc 1,0,2,1,0; 1,0,2,2,0"),
    "C03": many("mutable_seq 1,1,1; 2,0,0; 2,1,0; 3,0,0 | mutable_swap 0,1; 1,1; 2,1 | mutable_rmw 0,0; 1,1"),
    "C04": many("channel_conc 1,0,2,1; 2,0,2,1; 2,0,3,1,2; 3,0,3,1,1; 1,1,3,1,2; 1,1,2,0; 2,0,2,0; 3,0,2,1; 2,1,1,1 | channel_rx_drop 1; 2; 3"),
    "C05": many("broadcast_conc 1,2,1,0; 1,2,1,1; 1,2,2,0; 1,2,2,1; 2,2,1,1 | broadcast_seq 2,1,4,2; 2,1,5,2; 1,1,6,2; 1,1,5,3"),
    "C06": many("cancel_conc 0,2,1; 1,2,1; 2,2,1; 3,3,1; 0,2,0; 2,2,0; 3,4,1@4 | mem_cancel 1,2"),
    "C07": many("mutable_vec 2,1,2,1; 2,2,2,1,0,3; 2,2,1,0; 1,2,2,0,0,1; 1,3,1,0,0,1 | mutable_vec_cloned 2,1,2,1; 1,2,2,1,0,3 | vec_conc 1,0,2,0,0,0; 1,0,2,1,1,0"),
    "C08": many("mutable_map 1,1,1,0,1; 1,1,2,1,0; 2,1,1,0,1; 1,2,1,0,1; 1,3,1,0,0,1; 1,2,2,1,0,3 | mutable_map_cloned 1,1,2,1,0; 1,2,2,1,0,3 | map_conc 1,0,2,0,8,0; 1,0,2,0,8,1; 1,0,2,1,8,2"),
    "C09": many("apply_to_vec 3,3; 6,6; 8,4 | mutable_vec 2,1,2,0,0,1; 3,1,1,0,0,1"),
    "C10": many("filter 2,2,1; 2,3,1; 3,2,1; 3,3,0; 7,1,0 | filter_map 2,2,1; 2,3,1; 3,2,1; 3,3,0; 7,1,0"),
    "C11": many("sort 1,2,1; 2,1,1; 3,1,1; 3,1,0; 2,2,1; 4,1,0; 12,1,0,2,0,0,0,0,0,0,0,1; 22,0,0,2,0,0,0,0,0,0,0,1; 22,0,0,3,0,0,0,0,0,0,0,1"),
    "C12": many("chain 1,1,1,1,1,1; 2,2,0,2,1,0; 2,1,0,2,2,0; 1,2,1,1,2,1; 2,1,1,2,1,1; 4,1,0,4,1,0") + rounds("chain 2,1,1,2,1,1; 1,2,1,1,2,1"),
    "C13": many(
        "flatten_vec 1,1,1,1,1,0; 1,1,1,1,1,1,0,0,0,0,1; 2,1,1,2,1,1,0,0,0,0,1,0,3; 2,2,0,1,1,0,0,0,0,0,1,0,3; 2,2,1,1,1,1,0,0,0,0,1,1,3; "
        "3,2,1,2,0,0,0,0,0,0,1,1,3; 2,1,0,2,2,0,0,0,0,0,1,1,3; 2,1,1,1,1,0,0,0,0,0,1; 1,2,1,1,1,1,0,0,0,0,1; 3,1,0,3,1,0,0,0,0,0,1,1,3"
    ) + rounds("flatten_vec 1,1,1,1,1,1,0,0,0,0,1; 2,1,1,2,1,1,0,0,0,0,1,0,3; 2,2,1,1,1,1,0,0,0,0,1,1,3"),
    "C14": many("map_vec 2,2,1; 3,2,1; 2,3,1; 8,1,0 | enumerate 2,2,1; 3,2,1; 2,3,1; 8,1,0"),
    "C15": many("map_signal 1,2,1,1,1; 2,1,1,1,1; 2,2,0,1,0; 2,2,1,1,1; 3,1,1,1,1; 5,1,0,1,0,0,0,0,0,0,1") + rounds("map_signal 2,1,1,2,1; 2,2,1,1,1"),
    "C16": many("filter_signal 1,2,1,1,0; 2,1,1,1,1; 2,1,1,1,0; 3,1,0,1,0; 2,2,0,1,0; 4,1,0,1,0,0,0,0,0,0,1,1") + rounds("filter_signal 1,2,1,1,1; 2,1,1,1,1"),
    "C17": many("delay_remove 1,2,1,1; 2,2,1,1; 2,3,0,1; 3,2,0,1; 5,1,0,1") + rounds("delay_remove 3,2,1,1; 2,3,1,1"),
    "C18": many(" | ".join(x + " 2,2,1; 3,2,1; 2,3,1; 8,1,0" for x in ["len", "is_empty", "sum", "to_signal_map", "to_signal_cloned"])),
    "C19": many("switch_signal_vec 2,1,1,1,1; 2,1,1,2,1; 2,0,2,2,0; 3,1,1,1,0; 1,0,2,2,0; 1,1,2,2,1,0,0,0,0,0,1,0,1; 1,0,2,3,0,0,0,0,0,0,1,0,1; 1,0,4,1,0,0,0,0,0,0,1,0,1 | sig_to_signal_vec 3,2,2; 4,2,3 | vec_from_stream 5,4 | vec_always 6 | vec_to_stream 2,2,1; 3,2,1") + rounds("switch_signal_vec 2,1,1,1,1; 1,1,1,2,1; 2,1,1,2,1; 2,2,1,1,1; 3,1,1,1,1"),
    "C20": many("map_value 3,1; 4,1 | map_value_signal 2,1,1,1; 1,2,2,1; 2,2,2,1; 3,1,1,1 | key_cloned 3,2; 4,1") + rounds("map_value_signal 2,2,1,1; 3,1,1,1; 2,2,2,1"),
    "C21": many("sig_map 6,3 | sig_inspect 6,3 | sig_eq 5,3 | sig_not 6,3 | sig_option 5,3 | sig_and_or 3,2,3,2 | map_ref 3,2,3,2 | map_mut 3,2,3,2 | map_ref3 2,1,2,1,2,1 | " + FORMS) + rounds("sig_and_or 3,2,3,2 | map_ref 4,3,4,3 | map_mut 4,3,4,3 | map_ref3 2,1,2,1,2,1 | sig_eq 5,3"),
    "C22": many("dedupe 4,2; 5,3 | sig_filter_map 4,2; 5,3 | first 4,3 | stop_if 4,2; 6,3"),
    "C23": many("sig_flatten 2,2,2,2; 3,2,3,2 | sig_switch 2,2,2,2; 3,2,3,2 | map_future 3,2,2; 4,2,2; 5,2,2 | throttle 3,2,2; 4,2,2; 5,3,2") + rounds("sig_flatten 3,2,3,2 | sig_switch 3,2,3,2 | map_future 6,3,3 | throttle 5,3,2"),
    "C24": many("sig_to_stream 6,3 | to_future 6,3 | wait_for 6,3 | sample 3,2,3,2; 4,2,4,2 | from_future 6 | sig_from_stream 6,3") + rounds("sample 4,2,4,2 | sig_to_stream 5,3 | to_future 5,3 | wait_for 5,3 | sig_from_stream 5,3"),
    "C25": many("sig_for_each 3,2,2; 4,2,2; 5,3,3 | vec_for_each 2,1,1,2; 2,2,1,2 | map_for_each 2,2,2; 3,2,2") + rounds("sig_for_each 5,3,2 | vec_for_each 2,2,1,2; 2,3,1,1 | map_for_each 3,2,2"),
    "C26": ALL + many("broadcast_seq 2,1,4,2; 1,1,5,2"),
    "C27": ALL + many("broadcast_seq 2,1,4,2; 1,1,5,2"),
    "C28": many(
        "mem_mutable 1,2,0,0,0,0; 1,2,1,0,1,1; 1,1,0,1,1,2; 1,2,0,0,0,3; 2,2,1,1,1,2 | mem_channel 1,0,2,0; 2,0,2,0; 1,1,2,1 | "
        "mem_broadcast 1,1,0,0; 1,1,1,1; 1,2,1,1 | mem_cancel 1,1; 1,2 | cancel_conc 2,2,1 | channel_conc 2,0,2,1 | broadcast_conc 1,2,1,1 | "
        "mutable_swap 0,1; 1,1; 2,1 | mutable_conc 1,1,2,1,0 | mutable_drop 1,2,2,1 | channel_rx_drop 2 | vec_conc 1,1,2,0,0,0 | map_conc 1,1,2,0,0 | "
        "broadcast_seq 2,1,4,2"
    )
    + ALL,
    "C29": many(
        "vec_conc 1,0,2,0,0,0; 1,0,2,0,1,0; 1,0,2,0,2,1; 1,0,2,1,3,0; 1,1,2,0,8,0; 1,1,2,1,8,1; 1,0,2,0,8,0,1@3; 1,1,1,0,8,0,1; 2,1,2,1,0,1; 2,1,2,0,1,1; 2,1,2,0,8,0 | "
        "map_conc 1,0,2,0,0; 1,0,2,1,1; 1,1,2,0,8,0; 1,1,2,1,8,1; 1,1,2,0,8,2; 1,0,2,0,8,0,1@3; 1,1,1,1,8,0,1; 2,1,2,1,0; 2,1,2,0,2,2"
    ),
    "C30": many("serde 2; 4; 6"),
    "C31": many("wrap_sig 2,2; 6,3 | wrap_vec 2,2,1; 3,2,1 | wrap_map 2,2; 3,1 | always 6"),
    "C32": many("views_vec 2,2; 4,4 | views_map 2,2; 3,3 | views_mutable 0 | views_debug 3"),
    "C33": many("forget " + "; ".join("%d,%s" % (k, p) for k in range(4) for p in ["2,2,0", "2,2,1", "3,2,1", "3,3,0"])),
    "C34": many(
        "sig_flatten 2,2,2,2 | sig_switch 2,2,2,2 | map_future 3,2,2; 4,2,2 | map_value_signal 2,1,1,1; 1,2,2,1 | map_signal 1,2,1,1,1; 2,1,1,1,1; 2,2,0,1,0 | "
        "filter_signal 1,2,1,1,0; 2,1,1,1,0 | flatten_vec 1,1,1,1,1,0; " + FLAT + "; 2,2,0,1,1,0,0,0,0,0,1,0,3 | "
        "switch_signal_vec 2,1,1,1,1; 2,1,1,2,1; 1,1,2,2,1,0,0,0,0,0,1,0,1"
    ) + rounds("sig_flatten 3,2,2,2 | sig_switch 3,2,2,2 | map_future 5,2,2 | map_value_signal 2,2,2,1 | map_signal 2,1,1,2,1; 2,2,1,1,1 | filter_signal 1,2,1,1,1 | switch_signal_vec 2,1,1,1,1; 2,2,1,1,1 | flatten_vec 1,1,1,1,1,1,0,0,0,0,1"),
}

# thorough runs do these after the quick ones; the last ones of a property may not complete
T_ALL = many(
    "sig_map 6,3 | sig_eq 6,3 | sig_not 6,3 | sig_and_or 3,2,3,2 | map_ref 3,2,3,2 | map_mut 3,2,3,2 | map_ref3 2,2,2,2,2,2 | dedupe 6,3 | sig_filter_map 6,3 | first 5,3 | "
    "stop_if 6,3 | sig_flatten 3,2,3,2 | sig_switch 3,2,3,2 | map_future 5,2,2 | throttle 5,3,2 | sig_to_stream 6,3 | to_future 6,3 | wait_for 6,3 | sample 4,2,4,2 | sig_from_stream 6,3 | "
    "map_value 4,1 | map_value_signal 2,2,2,1; 3,1,1,1 | key_cloned 4,2 | sig_for_each 5,3,3 | vec_for_each 2,2,1,2 | map_for_each 3,2,2 | "
    "filter 3,2,1; 2,3,1 | filter_map 3,2,1; 2,3,1 | sort 2,2,1; 3,1,1 | chain 2,1,1,2,1,1; 1,2,1,1,2,1 | flatten_vec 2,1,1,1,1,0,0,0,0,0,1; 1,2,1,1,1,1,0,0,0,0,1 | map_vec 3,2,1; 2,3,1 | "
    "enumerate 3,2,1; 2,3,1 | map_signal 2,2,1,1,1; 3,1,1,1,1 | filter_signal 2,2,0,1,0; 3,1,0,1,0 | delay_remove 2,3,0,1; 3,2,0,1 | len 3,2,1; 2,3,1 | is_empty 3,2,1; 2,3,1 | "
    "sum 3,2,1; 2,3,1 | to_signal_map 3,2,1; 2,3,1 | to_signal_cloned 3,2,1; 2,3,1 | switch_signal_vec 3,1,1,1,0; 2,1,1,2,1; 1,1,2,2,1,0,0,0,0,0,1,0,1 | sig_to_signal_vec 4,2,3 | "
    "vec_from_stream 5,4 | vec_to_stream 3,2,1"
)
THOROUGH = {
    "C01": many("mutable_conc 1,0,2,1,0@4; 1,0,2,2,0@3; 2,0,2,1,0@4; 2,0,3,1,0@4; 1,1,2,1,0@3; 1,1,3,1,0; 2,1,2,1,0; 1,0,3,2,0; 3,0,3,1,0@3; 1,0,2,1,1@4; 1,0,2,1,2@4; 1,0,2,1,3@4; 1,0,2,1,4@4; 1,0,2,1,5@4; 2,2,2,1,0; 2,1,3,1,0@3; 2,0,3,2,0 | mutable_swap 2,2@3; 3,2 | mutable_seq 2,1,1"),
    "C02": many("mutable_drop 1,2,0,0@4; 1,2,1,0@4; 1,2,2,0@3; 1,2,3,0@3; 1,2,0,1@3; 1,2,1,1@3; 1,2,2,1@3; 2,3,0,0@3; 2,3,1,0@3; 2,3,2,0; 2,3,3,0; 2,3,1,1; 2,3,2,1"),
    "C03": many("mutable_seq 2,1,1; 3,1,0; 4,0,0 | mutable_rmw 1,0; 2,0; 0,0@4; 1,1@3 | mutable_swap 0,1@4; 1,1@3; 2,1@3"),
    "C04": many("channel_conc 2,0,2,1@3; 2,0,3,1,2@3; 3,0,3,1,1@3; 1,1,2,0@3; 1,1,3,1,2@3; 2,1,2,0; 2,1,3,1; 2,2,2,0; 2,2,3,1; 3,1,2,1; 4,0,3,1,1 | channel_rx_drop 1@4; 2@4; 3@4; 4"),
    "C05": many("broadcast_conc 1,2,1,0@3; 1,2,1,1@3; 1,2,2,0@3; 2,2,1,1@3; 2,2,2,1; 2,3,2,0; 2,2,2,1@3 | broadcast_seq 2,1,6,2; 2,2,5,2; 2,1,5,3; 1,1,6,3; 2,1,7,2"),
    "C06": many("cancel_conc 0,2,1@5; 1,2,1@5; 2,2,1@5; 3,3,1@4; 0,3,1@4; 4,4,1@4; 0,3,0; 3,3,0; 5,5,1@5 | mem_cancel 1,2@3; 2,2; 2,3@3"),
    "C07": many("mutable_vec 2,2,1,0,1; 2,2,2,1,0; 3,2,1,0,0; 2,2,2,1,1; 1,3,2,1,0,3; 3,2,2,1,0; 2,3,1,0,0 | mutable_vec_cloned 2,2,1,0,1; 2,2,2,1,0 | vec_conc 1,1,2,0,0,0; 2,0,2,0,0,0; 1,0,2,1,2,0@3"),
    "C08": many("mutable_map 2,2,1,0,1; 2,2,2,1,0; 1,3,2,1,0; 3,2,1,0,1; 1,4,1,0,0,1 | mutable_map_cloned 2,2,2,1,0; 1,2,2,1,1 | map_conc 1,1,2,0,0; 2,0,2,0,0"),
    "C09": many("apply_to_vec 12,6; 16,16 | mutable_vec 3,2,1,0,0; 6,1,1,0,0"),
    "C10": many("filter 3,2,2; 4,2,1; 2,4,0; 3,3,1; 9,1,0; 4,3,0 | filter_map 3,2,2; 4,2,1; 2,4,0; 3,3,1; 4,3,0"),
    "C11": many("sort 5,1,0; 22,1,0,2,0,0,0,0,0,0,0,1; 34,0,0,3,0,0,0,0,0,0,0,1; 3,2,0; 2,3,0; 3,2,1; 6,1,0; 4,2,0"),
    "C12": many("chain 2,2,1,2,1,1; 2,2,0,2,2,0; 5,1,0,5,1,0; 3,2,0,3,1,0; 2,2,1,2,2,1; 1,3,0,1,2,0"),
    "C13": many("flatten_vec 2,1,1,1,1,1,0,0,0,0,1; 2,2,0,2,1,0,0,0,0,0,1,1,3; 3,1,0,3,1,0,0,0,0,0,1; 2,1,0,2,2,0,0,0,0,0,1; 2,2,1,1,1,1,0,0,0,0,1; 3,2,0,1,1,0,0,0,0,0,1,1,3; 1,3,0,1,1,0,0,0,0,0,1; 4,1,0,2,1,0,0,0,0,0,1,1,3"),
    "C14": many("map_vec 3,3,0; 4,2,1; 2,4,0; 12,1,0 | enumerate 3,3,0; 4,2,1; 2,4,0; 12,1,0"),
    "C15": many("map_signal 2,2,1,1,1; 3,2,0,1,0; 4,1,1,1,1; 2,2,0,2,0; 2,1,1,2,2; 6,1,0,1,0,0,0,0,0,0,1; 2,3,0,1,0"),
    "C16": many("filter_signal 2,1,1,2,1; 2,2,0,1,1; 4,1,0,1,0; 5,1,0,1,0,0,0,0,0,0,1,1; 2,2,1,1,0; 3,2,0,1,0; 2,2,0,2,0"),
    "C17": many("delay_remove 3,2,1,1; 2,3,1,1; 2,2,1,2; 6,1,0,0; 4,2,0,1; 3,3,0,1; 2,4,0,1"),
    "C18": many(" | ".join(x + " 3,3,0; 4,2,1; 2,4,0; 12,1,0" for x in ["len", "is_empty", "sum", "to_signal_map", "to_signal_cloned"])),
    "C19": many("switch_signal_vec 2,1,2,2,1; 3,1,1,2,0; 2,1,2,2,0,0,0,0,0,0,1,0,1; 3,0,2,2,0; 4,1,1,1,0; 2,0,2,3,0; 2,1,1,2,2 | sig_to_signal_vec 6,3,3 | vec_from_stream 8,5 | vec_always 12 | vec_to_stream 3,3,1"),
    "C20": many("map_value 5,2; 6,1 | map_value_signal 2,2,2,2; 3,2,1,1; 3,2,2,1; 4,1,1,1; 2,2,3,2 | key_cloned 5,2; 6,2"),
    "C21": many("sig_map 9,4 | sig_eq 8,4 | sig_not 9,4 | sig_option 8,4 | sig_and_or 4,2,4,2 | map_ref 4,3,4,3 | map_mut 4,2,4,2 | map_ref3 2,2,2,2,2,2; 3,1,3,1,3,1 | map_forms 3,3,0; 3,3,1; 3,3,2; 2,2,3; 2,1,4; 1,1,5; 3,3,6"),
    "C22": many("dedupe 7,4; 8,2 | sig_filter_map 7,4; 8,2 | first 7,4 | stop_if 9,4"),
    "C23": many("sig_flatten 4,2,3,2; 3,3,3,3; 4,3,4,2 | sig_switch 4,2,3,2; 3,3,3,3; 4,3,4,2 | map_future 6,3,3; 8,2,2; 7,4,3 | throttle 6,4,3; 8,3,2"),
    "C24": many("sig_to_stream 9,4 | to_future 9,4 | wait_for 9,4 | sample 5,3,5,3; 6,2,6,2 | from_future 9 | sig_from_stream 9,4"),
    "C25": many("sig_for_each 7,4,3; 8,3,2 | vec_for_each 3,2,1,2; 2,3,1,2; 2,2,2,3 | map_for_each 4,2,2; 4,3,3"),
    "C26": T_ALL + many("broadcast_seq 2,1,5,2; 1,1,6,2"),
    "C27": T_ALL + many("broadcast_seq 2,1,5,2; 1,1,6,2"),
    "C28": many(
        "mem_mutable 1,2,0,0,0,0@3; 1,2,1,0,1,1@3; 1,2,1,1,1,2@3; 1,2,0,0,0,3@3; 2,2,1,1,1,2@3; 2,2,0,1,1,1; 2,2,1,0,1,0 | mem_channel 2,0,2,0@3; 1,1,2,1@3; 2,1,2,1; 2,2,2,0; 3,0,3,1 | "
        "mem_broadcast 1,1,0,0@3; 1,1,1,1@3; 1,2,1,1@3; 2,2,1,1; 2,2,0,0 | mem_cancel 1,2@4; 2,3@3 | vec_conc 1,1,2,0,0,0@3; 2,1,2,0,0,0 | map_conc 1,1,2,0,0@3; 2,1,2,0,0"
    )
    + T_ALL,
    "C29": many(
        "vec_conc 1,0,2,0,8,0,0@4; 1,0,2,1,8,1,0@4; 1,1,2,0,8,0@3; 1,1,2,1,8,1@3; 2,1,2,0,8,1; 2,1,2,1,8,0; 1,1,2,0,8,1,1; 1,0,3,0,8,0,1@4; 2,2,2,0,0,0; 2,2,2,1,8,1; 3,1,2,0,8,0 | "
        "map_conc 1,0,2,0,8,0@4; 1,0,2,1,8,1@4; 1,1,2,0,8,2@3; 1,1,2,1,8,0@3; 2,1,2,0,8,0; 2,1,2,1,8,1; 2,1,2,0,8,2; 1,1,2,0,8,2,1; 1,0,3,0,8,0,1@4; 2,2,2,1,8,0; 3,1,2,0,8,2"
    ),
    "C30": many("serde 8; 12; 16"),
    "C31": many("wrap_sig 9,4 | wrap_vec 3,3,1; 4,2,1 | wrap_map 4,2; 5,1 | always 12"),
    "C32": many("views_vec 6,6; 8,5 | views_map 4,4; 5,3 | views_debug 5"),
    "C33": many("forget " + "; ".join("%d,%s" % (k, p) for k in range(4) for p in ["2,4,0", "2,4,1", "3,3,1", "4,2,1"])),
    "C34": many(
        "sig_flatten 3,3,3,3 | sig_switch 3,3,3,3 | map_future 6,3,3 | map_value_signal 2,2,2,1; 3,2,1,1 | map_signal 2,2,1,1,1; 3,2,0,1,0; 2,2,0,2,0 | "
        "filter_signal 2,2,0,1,0; 3,1,0,1,0; 2,1,1,2,1 | flatten_vec 2,1,1,1,1,1,0,0,0,0,1; 2,2,0,2,1,0,0,0,0,0,1,1,3; 1,3,0,1,1,0,0,0,0,0,1 | "
        "switch_signal_vec 2,1,2,2,1; 3,1,1,2,0; 2,1,2,2,0,0,0,0,0,0,1,0,1"
    ),
}

STALL = "stall:|end does not agree|does not end|does not resolve|does not complete|kind:nontermination"
# which violations count for a property (default: everything but leaks; repolls are only reported on request)
ONLY = {"C34": "kept:", "C26": STALL, "C27": "repoll:", "C28": "leak:|kind:memory|kind:race|kind:deadlock|kind:ub|kind:panic|kind:abort|kind:stack"}
IGNORE = {}
