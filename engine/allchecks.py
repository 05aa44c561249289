import props, verdict, runtime, syntax, meta, lints, determinism, fuzz, langs, cost, work
