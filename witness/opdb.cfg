root ^(impl|spec|prove|bad|never)_
eh 1
opaque ^(std::|[^(]* std::)(_Rb_tree|basic_|__cxx11::basic_|operator<<|runtime_error)
