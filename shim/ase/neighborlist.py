def build_neighbor_list(*a, **k): raise NotImplementedError
