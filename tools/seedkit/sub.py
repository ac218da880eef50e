def sub(path, a, b, n=1):
    s = open(path).read(); assert s.count(a) >= 1, (path, a); 
    if n == 1: assert s.count(a) == 1, ("ambiguous", s.count(a), a)
    open(path, "w").write(s.replace(a, b))
