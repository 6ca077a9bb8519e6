function v = get(h, p)
global PROPS
if strcmpi(p, 'CurrentPoint'), v = [PROPS.point(:)' 1 ; PROPS.point(:)' -1] ; else v = PROPS.(lower(p)) ; end
