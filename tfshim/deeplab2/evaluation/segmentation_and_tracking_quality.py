"""A recorder in the place of DeepLab2's STQuality."""
import numpy as np


class STQuality:
    def __init__(self, num_classes, things_list, ignore_label, max_instances_per_category, offset, name="stq"):
        self.args = (num_classes, things_list, ignore_label, max_instances_per_category, offset)
        self.updates, self.merged, self.resets = [], [], 0

    def update_state(self, y_true, y_pred, sequence_id=0, weights=None):
        self.updates.append((np.array(y_true), np.array(y_pred), sequence_id, np.array(weights)))

    def merge_state(self, metrics):
        self.merged += list(metrics)
        for m in metrics:
            self.updates += m.updates

    def reset_states(self):
        self.updates, self.merged = [], []
        self.resets += 1

    reset_state = reset_states

    def result(self):
        n = len(self.updates)
        return {"STQ": n + 0.25, "AQ": n + 0.5, "IoU": n + 0.75, "STQ_per_seq": [], "AQ_per_seq": [], "IoU_per_seq": []}
