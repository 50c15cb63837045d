"""Example files per format (by the format that weio.read picks on the reference tree), copied next to their companions."""
import os, shutil, glob
EX = os.path.join(os.environ.get('RT_REPO', '/repo'), 'weio', 'tests', 'example_files')
# class name -> example files
TABLE = {
 'CSVFile': ['CSVComma.csv', 'CSVSemi.csv', 'CSVTab.csv', 'CSVColInHeader.csv', 'CSVColInHeader2.csv', 'CSVColInHeader3.csv', 'CSVTwoLinesHeaders.txt', 'CSVNoHeader.csv', 'CSVAutoCommentChar.txt', 'CSVxIsString.csv', 'CSVDateNaN.csv'],
 'FASTInputFile': ['FASTIn_ED.dat', 'FASTIn_ED_bld.dat', 'FASTIn_ED_twr.dat', 'FASTIn_AD15.dat', 'FASTIn_AD15_bld.dat', 'FASTIn_AD15_arfl.dat', 'FASTIn_AD15_arf_multitabs.dat', 'FASTIn_BD.dat', 'FASTIn_BD_bld.dat', 'FASTIn_HD.dat', 'FASTIn_SD.dat', 'FASTIn_SbD.dat', 'FASTIn_MD.dat', 'FASTIn_ExtPtfm_SubSef.dat', 'FASTIn_TurbSim.dat', 'FASTIn_AD14.dat', 'FASTIn_AD14_arf.dat', 'FASTIn_Blade.dat'],
 'FASTOutputFile': ['FASTOut.out', 'FASTOutBin.outb', 'FASTOutBin_ID4.outb', 'FASTOut_Hydro.out', 'FastOut_V7.elm', 'FASTOut_HD.elev'],
 'FASTWndFile': ['FASTWnd.wnd'],
 'FASTLinearizationFile': ['FASTLin.lin', 'FASTLin_EDM.lin'],
 'FASTSummaryFile': ['FASTSum_Pendulum.SD.sum.yaml'],
 'TurbSimTSFile': ['TurbSimTS.txt'],
 'TurbSimFile': ['TurbSim_NoTwr.bts', 'TurbSim_WithTwr.bts'],
 'HAWC2DatFile': ['HAWC2_out_ascii.dat', 'HAWC2_out_bin.dat', 'BHAWC_out_ascii.dat'],
 'HAWC2StFile': ['HAWC2_st.st', 'HAWC2_st_fpm.st'],
 'HAWC2PCFile': ['HAWC2_pc.dat'],
 'HAWC2AEFile': ['HAWC2_ae.dat'],
 'HAWCStab2PwrFile': ['HAWCStab2.pwr'],
 'HAWCStab2IndFile': ['HAWCStab2_u3000.ind', 'HAWCStab2_defl_u3000.ind'],
 'FLEXBladeFile': ['FLEXBlade001.bld', 'FLEXBlade002.bld', 'FLEXBlade000.bla'],
 'FLEXProfileFile': ['FLEXProfile.pro'],
 'FLEXOutFile': ['FLEXOutBinV0.int', 'FLEXOutBinV3.res'],
 'FLEXWaveKinFile': ['FLEXWaveKin.wko'],
 'FLEXDocFile': ['FLEXDocFile.out'],
 'BModesOutFile': ['BModesOut.out'],
 'ROSCOPerformanceFile': ['RoscoPerformance_CpCtCq.txt'],
 'VTKFile': ['VTKStructuredPointsPointData.vtk'],
 'TecplotFile': ['TecplotASCII_1.dat', 'TecplotASCII_2.dat'],
 'ExcelFile': ['ExcelFile_OneSheet.xlsx'],
 'ParquetFile': ['ParquetFile_test.parquet'],
 'MannBoxFile': ['made:mann_a_2x3x4.u', 'made:mann_b_2x3x4.bin'],
 'HAWCStab2CmbFile': ['made:one.cmb', 'made:two.cmb'],
 'BladedFile': ['Bladed_out_ascii.$04', 'Bladed_out_binary.$04', 'Bladed_out_binary_case2.$PJ'],
}
def made(p):
    """small files of formats that have no example in the repository"""
    import numpy as np
    base, ext = os.path.splitext(os.path.basename(p))
    k = 1+sum(map(ord, base)) % 7
    if ext in ('.u', '.bin'): (np.arange(24)*k-3.5).astype('<f4').tofile(p)
    elif ext == '.cmb': open(p, 'w').write('# number of modes: 2\n'+''.join('%d %f %f %f %f\n' % (w, w*.1*k, w*.2, .01*w, .3*k) for w in range(4, 10)))

def place(name, dest):
    """copy an example and its companions (same stem) into the directory dest; returns the path"""
    if name.startswith('made:'):
        p = os.path.join(dest, name[5:]); made(p); return p
    stem = os.path.splitext(name)[0]
    for f in glob.glob(os.path.join(glob.escape(EX), glob.escape(stem)+'.*')):
        shutil.copyfile(f, os.path.join(dest, os.path.basename(f)))
    return os.path.join(dest, name)
def classes():
    import weio
    out = {}
    for ff in weio.fileFormats(): out[ff.constructor.__name__] = ff
    return out
