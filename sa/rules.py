RULES = {}
for _m in ("rules_state", "rules_plot", "rules_stats", "rules_density", "rules_misc", "rules_diag", "rules_none", "rules_tables", "rules_conv", "rules_opts", "rules_text", "rules_range", "rules_pos", "rules_rows", "rules_select"):
    try:
        RULES.update(__import__(_m).RULES)
    except ModuleNotFoundError as e:
        if e.name != _m:
            raise
