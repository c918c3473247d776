"""Obligations, findings and the result of one check"""


class Finding:
    """a definite violation, keyed by rule and construct (never by line)"""

    def __init__(self, rule, construct, message, file="", line=0, detail=None):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.file = file
        self.line = line
        self.detail = detail or {}

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def as_dict(self):
        return {"key": self.key, "rule": self.rule, "construct": self.construct, "message": self.message,
                "file": self.file, "line": self.line, "detail": self.detail}


class Report:
    def __init__(self):
        self.obligations = 0
        self.discharged = 0
        self.findings = []
        self.undetermined = []
        self.functions = set()
        self.samples = []
        self.counts = {}

    def ok(self, rule, construct, functions=(), sample=None):
        self.obligations += 1
        self.discharged += 1
        self.functions.update(functions)
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if sample and sum(1 for s in self.samples if s["rule"] == rule) < 3:
            self.samples.append({"rule": rule, "construct": construct, "what": sample})

    def bad(self, rule, construct, message, file="", line=0, functions=(), detail=None):
        self.obligations += 1
        self.functions.update(functions)
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.findings.append(Finding(rule, construct, message, file, line, detail))

    def unknown(self, rule, construct, why, functions=()):
        self.obligations += 1
        self.functions.update(functions)
        self.undetermined.append({"rule": rule, "construct": construct, "why": str(why)[:300]})
