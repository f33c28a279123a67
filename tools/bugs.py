"""Planted bugs: written from the property texts and the code.  demo: situations (check module, case) that show them."""
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo=None):
    BUGS[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("C01-sendwait", "C01",
    [("src/bvals_mhd.c", "ierr = MPI_Waitall(2, send_rq, MPI_STATUS_IGNORE);", "ierr = MPI_Wait(&(send_rq[0]), MPI_STATUS_IGNORE);", 0)],
    "a parallel run with x1 neighbours on both sides where the send to the right neighbour is not buffered by MPI and completes late",
    "the x1 exchange only waits for one of its two sends, so the buffer may be refilled for x2 while its message is still in flight")
bug("C02-shearproc", "C02",
    [("src/bvals_shear.c", "if (jproc < 0) jproc += pD->NGrid[1]; \n      getfrom_id = pD->GData[my_kproc][jproc][my_iproc].ID_Comm_Domain;",
      "if (jproc < 0) jproc = -jproc; \n      getfrom_id = pD->GData[my_kproc][jproc][my_iproc].ID_Comm_Domain;", 0)],
    "shearing box split over at least 3 processes in x2 (with two the mirrored rank is the right one)",
    "ghost zones at the inner x1 face wait for the wrong process")
bug("C03-nstep", "C03",
    [("src/restart.c", "fread(&(nu_STS),sizeof(Real),1,fp);", "fread(&(nu_STS),sizeof(Real),1,fp);\n  nu_STS = 0.25/(Real)(N_STS);")],
    "restart of a run with super-time-stepping while more than one sub-step is in use",
    "the first step after a restart uses a different damping parameter")

bug("C07-vlscalar", "C07",
    [("src/integrators/integrate_3d_vl.c", "pG->U[k][j][i].s[n] -= dtodx3*(x3Flux[k+1][j][i].s[n]\n                                       - x3Flux[k  ][j][i].s[n]);",
      "pG->U[k][j][i].s[n] -= dtodx3*(x3Flux[k+1][j][i].s[n]\n                                       - x3Flux[k  ][j][i].s[0]);")],
    "3D van Leer run with two or more passive scalars that differ", "scalars after the first exchange flux of the first one through x3 faces")
bug("C08-resist3", "C08",
    [("src/microphysics/resistivity.c", "dtodx1*(emf[k  ][je+1][i+1].x3 - emf[k][je+1][i].x3) -\n          dtodx3*(emf[k+1][je+1][i  ].x1 - emf[k][je+1][i].x1);",
      "dtodx1*(emf[k  ][je+1][i+1].x3 - emf[k][je+1][i].x3) -\n          dtodx3*(emf[k+1][je  ][i  ].x1 - emf[k][je  ][i].x1);")],
    "3D resistive run; only the field on the outermost x2 face is wrong (refreshed from the other side when periodic)", "divergence in the last layer of cells in x2")
bug("C09-hlldneg", "C09",
    [("src/rsolvers/hlld.c", "spd[3] = spd[2] + fabs(Bxi)/sqrtdr;", "spd[3] = spd[2] + fabs(Bxi)/((Bxi < 0.0) ? sqrtdl : sqrtdr);")],
    "MHD with a negative normal field and different densities on the two sides of an interface", "reversing the field or mirroring the problem changes the answer")
bug("C12-conduct3", "C12",
    [("src/bvals_mhd.c", "/* B2i is not set at j=js-nghost */\n  for (k=1; k<=nghost; k++) {\n    for (j=js-(nghost-1); j<=je+nghost; j++) {\n      for (i=is-nghost; i<=ie+nghost; i++) {\n        pGrid->B2i[ks-k][j][i]   = -pGrid->B2i[ks+(k-1)][j][i];",
      "/* B2i is not set at j=js-nghost */\n  for (k=1; k<=nghost; k++) {\n    for (j=js-(nghost-1); j<=je; j++) {\n      for (i=is-nghost; i<=ie+nghost; i++) {\n        pGrid->B2i[ks-k][j][i]   = -pGrid->B2i[ks+(k-1)][j][i];")],
    "3D MHD run with bc_ix3=5 whose field varies next to the outer x2 edge",
    "in the ghost zones beyond the conductor at the inner x3 face the transverse face field of the outer x2 columns keeps whatever was there")
bug("C21-tornuser", "C21",
    [("src/restart.c", "    ath_error(\"[restart_grids]: Expected USER_DATA, found %s\",line);", "    ath_perr(-1,\"[restart_grids]: Expected USER_DATA, found %s\",line);")],
    "restart from a file that was cut off inside its last section (disk full or crash while it was written)",
    "the torn file is accepted and the run continues from incomplete data")
bug("C22-ppmsize", "C22",
    [("src/reconstruction/lr_states_ppm.c", "nmax = MAX((MAX(size1,size2)),size3);", "nmax = MAX(size1,size2);")],
    "third order reconstruction on a grid that has more zones in x3 than in x1 and x2",
    "work arrays of the reconstruction are written past their end")
bug("C23-nestedge", "C23",
    [("src/init_mesh.c", "roffset = (pCD->Disp[dim] + pCD->Nx[dim])/(2*irefine) - pM->Nx[dim];",
      "roffset = (pCD->Disp[dim] + pCD->Nx[dim])/2 - (pD->Disp[dim] + pD->Nx[dim]);")],
    "two nested refined domains that end at the same place inside the box",
    "the layout is accepted although the inner domain touches the edge of its parent, and its ghost zones are filled from cells that do not exist")
