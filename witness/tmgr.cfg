root ^(impl|spec|prove|bad|never)_
eh 1
