"""Runtime-monitoring framework for codezonediitj/pydatastructs."""
