root ^(impl|spec|prove|bad|never)_
eh 1
opaque ^(std::|[^(]* std::)(_Rb_tree<[^()]*>::_M_(erase|copy)|basic_|__cxx11|operator<<|runtime_error|stack|deque|_Deque)
opaque ^boost::
opaque DeviceTypeTools
