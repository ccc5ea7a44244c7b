import subprocess,sys
import os
HERE=os.path.dirname(os.path.abspath(__file__))
exec(open(HERE+'/fixed_map.py').read())
M.update({})
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
auto=[('StatMoments.run applies','P06'),('VCA_Distance uses radial','P06'),('pass threads','P06'),('Genus_Distance uses','P06'),('Wavelet_Distance uses','P06'),('AnnulusKernel uses','P06'),('GaussianAnnulus2D is','P06'),('spectral_regrid_cube','P06'),('find_spatial_widths uses','P06')]
auto += [('SCF_Distance uses the number','P07'),('SCF_Distance recomputes','P07'),('StatMoments_Distance sets','P07'),('SCF keeps its size','P07')]
auto += [('PDF_Distance.distance_metric compares','P12'),('_format_data compares','P12')]
auto += [('PowerSpectrum accepts weights','P12')]
auto += [('Genus keeps the header','P13'),('Genus_Distance hands the headers','P13')]
auto += [('Dendrogram_Distance re-runs','P17'),('accepts analyses with another number','P17'),('keeps lags set later','P16'),('reports the break scale','P16'),('accept one break given','P16')]
auto += [('MVC.save_results leaves','P09'),('save_results leaves out the image','P09'),('the 2D fits use','P10'),('brk_err is None','P10'),('PDF.run uses the given bins','P10'),('histogram_stat leaves','P10')]
out=[]
for l in log:
    h,m=l.split(' ',1)
    if not m.startswith('fix:'): continue
    pid=M.get(h)
    for k,v in auto:
        if k in m: pid=v
    assert pid,l
    out.append('fixed: property=%s %s %s'%(pid,h,m[5:]))
known=open('/verif/dev/known.jsonl').read()
open('/verif/known_findings.jsonl','w').write(known+'\n'.join(out)+'\n')
