from checks.segtree import TreeBFS
SYSTEMS = [TreeBFS()]
ASSUMPTIONS = ['values range over finite alphabets; capacities as listed per configuration']
