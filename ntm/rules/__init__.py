"""Whole-program rules: FOR maps a property to the modules that check it."""
FOR = {"Q03": ["q03"], "C01": ["c01"], "W02": ["w02"], "I01": ["i01"]}
