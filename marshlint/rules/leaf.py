def check_leaf_surplus(c): pass
def check_leaf_components(c): pass
