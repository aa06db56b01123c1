// lets the compiler accept functions without a body (linkname)
