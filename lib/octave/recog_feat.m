function F = recog_feat(im)
% features of an "image" of the recognition suites: its pixels say which; counts the calls
global CALLS FEATS
CALLS(end+1) = im(1) ; F = FEATS{im(1)} ;
