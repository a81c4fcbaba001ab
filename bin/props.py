"""Which histories, conditions and models decide which property."""
ALL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15]
CONTRACT = dict(driver="filter_drv", spec="TraceContract", maxI=44)
EXACT = dict(driver="filter_drv", spec="TraceFilter", maxI=19, samples=1, sample_max=700000,
             sample_args=["--trunc", "60", "--pts", "8", "--rgs", "8"])


def C(**k):
    return {**CONTRACT, **k}


def X(**k):
    return {**EXACT, **k}


PROPS = {
    "C01": dict(parts=[C(fams=ALL, kinds="fnp", judge="fnp")], models=["fix", "refine"], deep_models=["var", "fixdeep", "vardeep", "refinevar"]),
    "C02": dict(parts=[C(fams=ALL, kinds="fnr", judge="fnr")], models=["fix", "refine"], deep_models=["var", "fixdeep", "vardeep", "refinevar"]),
    "C03": dict(parts=[C(fams=[7, 0, 1, 2, 4, 5, 8, 10, 11, 12, 3, 15], kinds="entry,fnp,fnr", judge="entry,fnp,fnr", gate="del")],
                models=["refine", "var"], deep_models=["fix", "refinevar"]),
    "C04": dict(parts=[C(fams=[9, 3, 6, 13, 1, 2, 15], kinds="route,fnp,fnr", judge="pair,fnp,fnr", twin=3)], models=["bulk"], deep_models=["refinebulk"]),
    "C05": dict(parts=[C(fams=[8, 0, 1, 2, 3, 4, 5, 10, 15], kinds="shrink,fnp,fnr", judge="shrink,fnp,fnr", gate="shr")],
                models=["refine", "var"], deep_models=["fix", "refinevar"]),
    "C06": dict(parts=[C(fams=[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15], kinds="ser,fnp,fnr", judge="ser,fnp,fnr", gate="rel")],
                models=["fix"]),
    "C07": dict(parts=[X(fams=ALL, kinds="ptx,rgx,content", judge="ptx,rgx,content")], models=["fix", "var"],
                universes=(6, 3), universes_deep=(48, 3)),
    "C08": dict(parts=[C(fams=[0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13], kinds="diff", judge="pair", twin=1)], models=["fix"]),
    "C09": dict(parts=[dict(driver="store_drv", spec="TraceStore", fams=[0, 1, 2, 3, 4, 5, 6, 7], kinds="list,look", judge="list,look", samples=2)],
                models=["slots"], deep_models=["slotsdeep"]),
    "C10": dict(parts=[dict(driver="tree_drv", spec="TraceMap", fams=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], kinds="map,iter", judge="map,iter", tree="s", samples=2,
                            sample_max=3000000, sample_args=["--trunc", "1200"])],
                models=["tree"], deep_models=["treedeep", "treewide"]),
    "C11": dict(parts=[dict(driver="tree_drv", spec="TraceMap", fams=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], kinds="map,iter", judge="map,iter", tree="i", samples=2,
                            sample_max=3000000, sample_args=["--trunc", "1500"])],
                models=["tree"], deep_models=["treedeep", "treewide"]),
    "C12": dict(parts=[C(fams=ALL, kinds="ro", judge="ro", twin=2)], models=["fix"]),
    "C13": dict(parts=[dict(driver="filter_drv", spec="TraceLife", maxI=44, fams=[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 14, 15], kinds="life", mode="asan", samples=1),
                       dict(driver="filter_drv", spec="TraceLife", maxI=44, fams=[9, 14, 8, 13], kinds="life", mode="asan", twin=1, samples=1),
                       dict(driver="store_drv", spec="TraceLife", fams=[0, 2, 4, 5, 6, 7], kinds="life", mode="asan", samples=1),
                       dict(driver="tree_drv", spec="TraceLife", fams=[0, 2, 4, 5, 7], kinds="life", mode="asan", tree="s", samples=1),
                       dict(driver="tree_drv", spec="TraceLife", fams=[0, 2, 4, 5, 7], kinds="life", mode="asan", tree="i", samples=1)],
                models=["own"], deep_models=["owndeep"], scan_s=45),
    "C14": dict(parts=[X(fams=ALL, kinds="size,grade", judge="size,grade")], models=["fix"], universes=(6, 3), universes_deep=(48, 3)),
}

MODELS = {
    "fix": dict(module="MCSmall.tla", cfg="MCSmall.cfg"),
    "var": dict(module="MCSmall.tla", cfg="MCVar.cfg"),
    "bulk": dict(module="MCSmall.tla", cfg="MCBulk.cfg"),
    "refine": dict(module="MCRefine.tla", cfg="MCRefine.cfg"),
    "refinevar": dict(module="MCRefine.tla", cfg="MCRefineVar.cfg"),
    "refinebulk": dict(module="MCRefine.tla", cfg="MCRefineBulk.cfg"),
    "own": dict(module="Ownership.tla", cfg="MCOwnership.cfg"),
    "owndeep": dict(module="Ownership.tla", cfg="MCOwnershipDeep.cfg"),
    "slots": dict(module="MCStore.tla", cfg="MCStore.cfg"),
    "slotsdeep": dict(module="MCStore.tla", cfg="MCStoreDeep.cfg"),
    "tree": dict(module="MCTree.tla", cfg="MCTree.cfg"),
    "treedeep": dict(module="MCTree.tla", cfg="MCTreeDeep.cfg"),
    "treewide": dict(module="MCTree.tla", cfg="MCTreeWide.cfg"),
    "fixdeep": dict(module="MCSmall.tla", cfg="MCSmallDeep.cfg"),
    "vardeep": dict(module="MCSmall.tla", cfg="MCVarDeep.cfg"),
}

TC = "TLA+ contract; TLC judges recorded executions of the real filter; small models checked exhaustively"
TF = "TLA+ model of the filter; TLC replays recorded executions step by step; small models checked exhaustively"
B = " Bounds: sampled histories (steered splits, merges, shrinks, reloads), stores up to some ten thousand entries, infix sizes 3-44 (3-19 where the exact model is compared); the small model (2-bit bytes, 4-cell stores) exhaustively."
NOTES = {
    "C01": (TC, "Every point answer for a present key in every judged execution is checked against FilterContract!PointAllowed; DivaSpec is model checked for NoFalseNegativePoint." + B),
    "C02": (TC, "FilterContract!RangeAllowed on every observed range answer; DivaSpec invariant NoFalseNegativeRange." + B),
    "C03": (TC, "FilterContract!DeleteCounts on the decoded entry count around every deletion, and no false negative afterwards; DivaSpec: DeleteIsMeaningful, OneEntryPerDelete." + B),
    "C04": (TC, "Two filters loaded through different routes are driven alongside and must answer alike (TraceContract!Pairs); no key missing; chunk-size edge cases enumerated." + B),
    "C05": (TC, "Answers, entries and size around every shrink (ShrinkAllowed, KeptPositive), no false negatives after it; DivaSpec: ShrinkKeepsPositives." + B),
    "C06": (TC, "Announced against written bytes, a reloaded copy's bytes, size and answers, continued operation after reload; DivaSpec: ReloadKeepsAnswers." + B),
    "C07": (TF, "Answers and decoded content equal those of the specification after every operation; besides, TLC writes out all three-step histories over small universes of neighbouring keys at the real constants and each is replayed." + B),
    "C08": (TC, "Integer-optimised and generic filter driven side by side through all call forms; answers and decoded content equal." + B),
    "C09": ("TLA+ model of an infix store (list and slot layout); TLC checks the slot algorithm on small stores exhaustively and judges recorded executions of real stores",
            "Layout decoded by InfixStore!LayoutHolds, half counts, list, and all point, range and longest-match answers after loads, inserts, deletes, resizes and shrinks; InfixSlots model checked for HoldsList, CountsRight, Placed, LooksRight. Bounds: sampled histories of up to 1500 operations on stores of 512-1024 cells, infix sizes 3-20, eight distributions; small stores of 4 cells and 5 slots exhaustively."),
    "C10": ("TLA+ sorted map and model of the leaf list with its prefix index; TLC checks the latter on small trees exhaustively and judges recorded executions of the real tree against the former",
            "Every get, probe, put, in-place read and update, merge, delete, range delete, clean, seek, forward and backward step and multi-step is judged by OrderedMap. Model: WormTree (leaves, anchors, index updates by split and merge) checked for LeavesRight, IndexRight, JumpsRight, IsTheMap. Bounds: sampled histories of up to 2800 operations on up to some thousand keys, nine key distributions; small trees (keys of up to 3 bits, 2 per leaf) exhaustively."),
    "C11": ("TLA+ sorted map and model of the leaf list with its prefix index; TLC checks the latter on small trees exhaustively and judges recorded executions of the real tree against the former",
            "Every probe, put, delete, range delete, seek, forward and backward step and multi-step, with the values seen, is judged by OrderedMap. Model: WormTree (leaves, anchors, index updates by split and merge) checked for LeavesRight, IndexRight, JumpsRight, IsTheMap. Bounds: sampled histories of up to 2800 operations on up to some thousand keys, nine key distributions; small trees (keys of up to 3 bits, 2 per leaf) exhaustively."),
    "C12": (TC, "Digest of the serialised bytes before and after read-only calls and against a twin that was never queried." + B),
    "C13": ("TLA+ model of who owns which block, checked exhaustively; TLC judges executions of the real code recorded under a memory checker against its life cycle",
            "Every recorded call returned without touching foreign or released memory (keys and buffers are exactly as long as announced), and after destruction the code holds no heap block and no mapped page (TraceLife). Model: Ownership (splits, merges, resizes, reloads, streaming, destruction) checked for Sound, Owned, Distinct. Bounds: sampled histories of filters, stores and both trees under AddressSanitizer; up to 5 boundaries and 20 blocks exhaustively."),
    "C14": (TF, "Store grades and reported size equal those of the specification after every operation, and after all three-step histories over small universes of keys that TLC writes out." + B),
}
NOT_APPLICABLE = {
}
