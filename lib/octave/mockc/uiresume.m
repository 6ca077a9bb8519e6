function uiresume(h)
global RESUMED
RESUMED = true ;
