function recog_path()
% the application and the stand-ins for what Octave does not have
warning('off', 'all') ; h = fileparts(mfilename('fullpath')) ; r = fileparts(fileparts(fileparts(which('vl_argparse')))) ;
addpath(fullfile(h, 'mockr')) ; addpath(fullfile(r, 'apps', 'recognition')) ;
