function delete(h)
global MARKS
MARKS(3,h) = MARKS(3,h) - 1 ;
