FIND = [
 {"property": "P26", "key": "ladder", "what": "with two groups per level, each including both groups of the level below, the time and memory a rule change takes double with every level, so about 25 levels (100 rule requests by an authorised client) stop the server: the resolver flattens all rules into one expression per group"},
]
