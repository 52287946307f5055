RC='raw/raw_classes.py'; PD='raw/plot_data.py'
MUT=[
('P21',RC,"return self.axis.step_offset(step + 1) - self.axis.step_offset(step)","return self.axis.step_offset(step + 1)"),
('P21',RC,"return self.step_offset(step + 1) - self.step_offset(step)","return self.step_offset(step + 1) - self.step_offset(step) - 1"),
('P21',RC,"            wave = self.data[self.step_offset(step):self.step_offset(step + 1)]","            wave = self.data[self.step_offset(step):self.step_offset(step + 1) - 1]"),
('P21',RC,"            if step == 0:\n                return self.data[:self.axis.step_offset(1)]","            if step == 0:\n                return self.data"),
('P21',RC,"return self.data[self.axis.step_offset(step):self.axis.step_offset(step + 1)]","return self.data[self.axis.step_offset(step):]"),
('P21',RC,"            if step >= len(self.step_offsets):","            if step > len(self.step_offsets) - 2:"),
('P21',RC,"            if step > 0:\n                return len(self.data)","            if step > 1:\n                return len(self.data)"),
('P21',RC,"        i = 1\n        k = 1","        i = 1\n        k = 0"),
('P21',RC,"        i = 1\n        k = 1","        i = 2\n        k = 1"),
('P21',RC,"            if self.data[i] == self.data[0]:","            if self.data[i] <= self.data[0]:"),
('P21',RC,"                    self.step_offsets[k] = i","                    self.step_offsets[k] = i + 1"),
('P21',RC,"        if k != len(self.step_info):","        if k > len(self.step_info):"),
('P21',RC,"return self.data[self.axis.step_offset(step) + n]","return self.data[self.axis.step_offset(step) + n - 1]"),
('P21',RC,"        if self.name == 'time':  # This is a bug in LTSpice, where the time axis values are sometimes negative\n            return np.abs(wave)\n        else:\n            return wave","        return np.abs(wave)"),
('P21',RC,"return i - 1 + frac","return i + frac"),
('P21',RC,"frac = (t - timex[i - 1]) / (timex[i] - timex[i - 1])","frac = (t - timex[i - 1]) / timex[i]"),
('P21',RC,"            timex = self.get_wave(step)","            timex = self.get_wave()"),
('P21',RC,"pos = self.axis.get_position(t, step)","pos = self.axis.get_position(t)"),
('P21',RC,"            offset = self.axis.step_offset(step)\n            i = int","            offset = 0\n            i = int"),
('P21',RC,"f * (self.data[offset + i + 1] - self.data[offset + i])","f * self.data[offset + i + 1]"),
('P21',RC,"            if i < last_item:","            if i <= last_item:"),
('P21',RC,"return self.get_point(pos, step)","return self.get_point(pos)"),
('P21',PD,"                        elif kwargs[key] != ll:\n                            break\n","                        elif kwargs[key] == ll:\n                            continue\n"),
('P21',PD,"                        if ll is None:\n                            break","                        if ll is None:\n                            continue"),
('P21',PD,"                        ret_steps.append(i)  #","                        ret_steps.append(i + 1)  #"),
('P21',PD,"return range(len(self._steps))","return range(1, len(self._steps))"),
('P21',PD,"                for step_dict in self._steps:\n                    for key in kwargs","                for step_dict in self._steps[1:]:\n                    for key in kwargs"),
('P21',PD,"                        ret_steps.append(i)  # All the step parameters match\n                    i += 1","                        ret_steps.append(i)  # All the step parameters match\n                        i += 1"),
]
BEN=[
('P21',RC,"""            if step == 0:
                return self.data[:self.axis.step_offset(1)]
            else:
                return self.data[self.axis.step_offset(step):self.axis.step_offset(step + 1)]""","""            first = self.axis.step_offset(step)
            return self.data[first:first + self.get_len(step)]"""),
('P21',RC,"""        while i < len(self.data):
            if self.data[i] == self.data[0]:
                if k < len(self.step_offsets):
                    self.step_offsets[k] = i
                k += 1
            i += 1
""","""        first = self.data[0]
        for i in range(1, len(self.data)):
            if self.data[i] == first:
                if k < len(self.step_offsets):
                    self.step_offsets[k] = i
                k += 1
"""),
('P21',RC,"""        while i < len(self.data):
            if self.data[i] == self.data[0]:
                if k < len(self.step_offsets):
                    self.step_offsets[k] = i
                k += 1
            i += 1
""","""        found = [i for i, x in enumerate(self.data) if x == self.data[0]]
        k = len(found)
        self.step_offsets[:k] = found
"""),
('P21',RC,"""            if step >= len(self.step_offsets):
                return len(self.data)
            else:
                return self.step_offsets[step]""","""            if step < len(self.step_offsets):
                return self.step_offsets[step]
            return len(self.data)"""),
('P21',RC,"""                frac = (t - timex[i - 1]) / (timex[i] - timex[i - 1])
                return i - 1 + frac""","""                left, right = timex[i - 1], timex[i]
                return (t - left) / (right - left) + (i - 1)"""),
('P21',RC,"""            if i < last_item:
                f = pos - i
                return self.data[offset + i] + f * (self.data[offset + i + 1] - self.data[offset + i])
            elif""","""            if last_item > i:
                left, right = self.data[offset + i], self.data[offset + i + 1]
                return left * (1 - (pos - i)) + right * (pos - i)
            elif"""),
('P21',PD,"""                ret_steps = []  # Initializing an empty array
                i = 0
                for step_dict in self._steps:
                    for key in kwargs:
                        ll = step_dict.get(key, None)
                        if ll is None:
                            break
                        elif kwargs[key] != ll:
                            break
                    else:
                        ret_steps.append(i)  # All the step parameters match
                    i += 1
                return ret_steps""","""                return [i for i, step_dict in enumerate(self._steps)
                        if all(key in step_dict and step_dict[key] == value for key, value in kwargs.items())]"""),
('P21',PD,"""                i = 0
                for step_dict in self._steps:
                    for key in kwargs:""","""                for i, step_dict in enumerate(self._steps):
                    for key in kwargs:""",
"                        ret_steps.append(i)  # All the step parameters match\n                    i += 1","                        ret_steps.append(i)  # All the step parameters match"),
]
