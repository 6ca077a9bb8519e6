function uiwait(h)
% waits: the next events happen, until one resumes
global EVENTS RESUMED PROPS
RESUMED = false ;
while ~RESUMED
  if isempty(EVENTS), error('waits for an event that never comes') ; end
  e = EVENTS{1} ; EVENTS(1) = [] ;
  if isempty(e), feval(PROPS.keypressfcn, 7, []) ; else PROPS.point = e ; feval(PROPS.windowbuttondownfcn, 7, []) ; end
end
