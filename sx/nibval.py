DEFAULT = {"0f": 0, "01": 0, "01ef": 0, "full": 0, "5": 5, "0": 0, "f": 15, "3b": 3}
