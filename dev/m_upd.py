U='editor/updates.py'
MUT=[
('P37',U,"            if (previous.name == name and","            if (previous.name.startswith(name) and"),
('P37',U,"(name != \"INSTRUCTION\" or value == previous.value)","True"),
('P37',U,"                if previous.updates == updates or updates == UpdateType.InvalidUpdate:\n                    update = previous\n                break","                update = previous\n                break"),
('P37',U,"        update.value = value\n","        if update.value is None:\n            update.value = value\n"),
('P37',U,"deepcopy(self.netlist_updates)","self.netlist_updates[:]"),
('P37',U,"        for update in reversed(self.netlist_updates):\n            if update.name == name:","        for update in self.netlist_updates:\n            if update.name == name:"),
('P37',U,"            if update.updates == UpdateType.UpdateComponentValue and update","            if update.updates in (UpdateType.UpdateComponentValue, UpdateType.AddComponent) and update"),
('P37',U,"(UpdateType.UpdateParameter, UpdateType.AddParameter)","(UpdateType.UpdateParameter,)"),
('P37',U,"update.name.startswith(name + ':')","update.name.startswith(name)"),
('P37',U,"        elif self.updates == UpdateType.CloneSubcircuit:\n            return f\"Sub-circuit {self.name} was added\"\n",""),
('P37',U,"if update.name == item:","if update.name.startswith(item):"),
('P37',U,"            self.netlist_updates.append(update)","            self.netlist_updates.insert(0, update)"),
('P37',U,"        elif self.updates == UpdateType.DeleteComponent:\n            return f\"Component {self.name} was deleted\"","        elif self.updates == UpdateType.DeleteComponent:\n            return f\"Component {self.name} was added\""),
]
BEN=[
('P37',U,"        newone.netlist_updates = deepcopy(self.netlist_updates)","        newone.netlist_updates = [Update(u.name, u.value, u.updates) for u in self.netlist_updates]"),
('P37',U,"        update = None\n        for previous in reversed(self.netlist_updates):","        update = None\n        for previous in self.netlist_updates[::-1]:"),
('P37',U,"""                if previous.updates == updates or updates == UpdateType.InvalidUpdate:
                    update = previous
                break
        if update is None:
            update = Update(name, value, updates)
            self.netlist_updates.append(update)
""","""                if previous.updates == updates or updates == UpdateType.InvalidUpdate:
                    if updates != UpdateType.InvalidUpdate:
                        previous.updates = updates
                    previous.value = value
                    return previous
                break
        update = self._new_entry(name, value, updates)
""","    def value(self, reference)","    def _new_entry(self, name, value, updates):\n        entry = Update(name, value, updates)\n        self.netlist_updates.append(entry)\n        return entry\n\n    def value(self, reference)"),
('P37',U,"        return [update for update in self.netlist_updates if update.name == name or update.name.startswith(name + ':')]","        prefix = name + ':'\n        found = []\n        for update in self.netlist_updates:\n            if update.name == name or update.name.startswith(prefix):\n                found.append(update)\n        return found"),
('P37',U,"            return f\"Component {self.name} was deleted\"","            text = f\"Component {self.name} was deleted\"\n            return text"),
('P37',U,"            if update.updates == UpdateType.UpdateComponentValue and update.name == reference:\n                return update.value","            if update.name != reference:\n                continue\n            if update.updates == UpdateType.UpdateComponentValue:\n                return update.value"),
('P37',U,"""        if self.updates == UpdateType.UpdateParameter:
            return f"Parameter {self.name} was updated to {self.value}\"""","""        kind = self.updates
        if kind == UpdateType.UpdateParameter:
            return "Parameter %s was updated to %s" % (self.name, self.value)"""),
]
