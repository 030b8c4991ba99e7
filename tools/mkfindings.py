import json,subprocess
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).split("\n")
M={"f707c6f":("C17","Fatt and Klikoff's function had the ID of another model"),
"44d2a8d":("C17","van Genuchten capillary pressure was NaN or failed above the maximum liquid saturation"),
"753218d":("C18","meshes shared their data dictionaries with the objects they were made from"),
"c70e3c4":("C18","from_meshio took the material array away from the meshio mesh"),
"5cea8cc":("C18","set_material with a list of booleans marked the wrong cells"),
"aec9a20":("C18","set_material reused material codes and wrote into arrays of other meshes"),
"7c3a141":("C18","extrude_to_3d kept data of dropped cells and misplaced tensor data"),
"4aa8d31":("C18","prune_duplicates shuffled cells, left sets behind and missed twins in other blocks"),
"217e7ad":("C18","interpolation of vector data between points and cells failed or was wrong"),
"840c872":("C18","a box filter with a length of zero was taken as no length"),
"3ecc76b":("C01","title lines that begin like a block"),
"c25fcd3":("C19","a deck closed by ENDFI instead of ENDCY was read past its end"),
"fb452e3":("C19","NAD = 0 rock types swallowed the record after them"),
"50bfe40":("C19","short PARAM and MOMOP records could not be read"),
"82fc5f2":("C19","a blank or fractional DELTEN was misread"),
"735f1fe":("C19","generators with any ITAB character, or a block GENER closed by +++, were misread"),
"7848956":("C19","block OUTPU with a blank format was misread"),
"5d015df":("C19","Fortran reals with D or short exponents were not understood"),
"0817c69":("C19","the FLAC3D reader stopped at blank lines"),
"f92fed3":("C19","FLAC3D cells in no group were attributed wrongly or refused"),
"1768d99":("C19","Tecplot headers with comments, blank lines or multi-line variable lists were misread"),
"3428df8":("C19","Tecplot zone records in other letter case or order, and lists in VARLOCATION, were misread"),
"be1bf8d":("C19","blank lines ended the reading of result files, unquoted CSV was refused"),
"003f087":("C01","write_input/read_input of a file without block ROCKS looped for ever when the title was read"),
"1c431ae":("C09","a truncated TOUGH input file leaked StopIteration (RuntimeError) out of read_input"),
"33b0a78":("C09","a truncated TOUGH listing leaked StopIteration out of read_output"),
"9d3a46f":("C10","read_output(..., label_length=n) failed on TOUGH listings"),
"029fb93":("C09","a Tecplot output file cut inside a zone looped for ever in read_output"),
"d4e2688":("C09","a cut Tecplot mesh file looped for ever in read_mesh"),
"2aec8fe":("C03","a Tecplot mesh whose first datum is negative could not be read back"),
"ad90d89":("C08","write_input(json) of a value JSON cannot hold destroyed the existing file"),
"959c8cd":("C08","save2incon truncated the INCON file before finding out that SAVE is unreadable"),
"0c9b2a4":("C05","extract --split ignored --file-format"),
"4487650":("C01","block SELEC without floats could not be written or read back"),
"32bca40":("C01","default of the solver method was stored under a key the writer does not use"),
"01cfdfc":("C01","block OUTPU with only a format swallowed the block after it"),
"beae766":("C01","an element without material could not be read"),
"694ccc3":("C01","generators of one element with and without enthalpy tables could not be read"),
"d3369ab":("C04","material_name and material_end ignored names shorter than five characters"),
"cdd7928":("C04","INCON left out cells whose primary variables are all negative"),
"b6e1326":("C03","FLAC3D groups were wrong when 2D cell blocks precede 3D ones"),
"ca7b115":("C03","several face groups of a FLAC3D text file were read wrongly"),
"c8b720b":("C03","FLAC3D text groups with blanks in their names were cut"),
"3fd7ab0":("C08","write_output with an unprintable value left a truncated file"),
"b0fb022":("C04","write_tough failed on a mesh without any connection"),
"d372bfa":("C10","columns glued by a minus sign in a TOUGH listing were read wrongly"),
"587e280":("C10","labels_order given as an array failed on SAVE files"),
"0602ab8":("C10","three-digit Fortran exponents (1.0-100) were not understood"),
"092ee4d":("C08","write_tough with an unprintable value left truncated MESH and INCON files"),
"8651d6e":("C12","reading a damaged AVS-UCD file with repeated ids returned uninitialised memory, so that the result depended on what the process did before"),
"a31b9f7":("C01","the number of mass components of block MULTI was not read back"),
"3fc99ed":("C03","FLAC3D binary groups with non-ASCII names could not be read back"),
"aad1c80":("C03","a Tecplot mesh whose 2D cells come before its 3D cells was written with the wrong zone type"),
"3e71062":("C13","Mesh.read_output reordered the output given by the caller"),
"f2c053f":("C02","CSV output lost variables whose names start with ELEM"),
"02f7d81":("C08","Mesh.write refused for unprintable data left truncated AVS-UCD, FLAC3D and pickle files"),
"b7ebe2e":("C03","FLAC3D groups of a mesh with line or vertex cells were written wrongly"),
"4489776":("C18","a FLAC3D grid with a zone group and a face group of the same name lost the material of the zones"),
"c80afde":("C01","histories of elements, connections or generators with labels of more than five characters were cut"),
"3fea2a2":("C01","INDOM was left out when only primary variables after the fourth are set"),
"0ea2aee":("C01","a record of INDOM or INCON whose last primary variables are all unset ended the block on reading"),
"7e7a87d":("C06","export of a voxelized mesh attached data to the wrong cells")}
out=[]
for l in reversed(log):
    if not l: continue
    h,t=l.split(" ",1)
    if not t.startswith("fix:"): continue
    p,w=M[h[:7]]
    out.append({"status":"fixed","property":p,"commit":h,"what":"fixed: property={} {} {}".format(p,h,w)})
json.dump({"findings":out},open("/verif/known_findings.json","w"),indent=1)
print(len(out))
