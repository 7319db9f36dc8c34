root ^(impl|spec|prove|bad|never)_
opaque ^(std::|[^(]* std::)(map<|_Rb_tree|basic_|__cxx11|operator<<|runtime_error|stack|deque|_Deque)
opaque ^boost::
