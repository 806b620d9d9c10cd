from scm import *
def main():
    c=SCheck("P42"); c.assum=SCM_ASSUM+["fields are represented by a description of how they were made and their value at one arbitrary point"]
    a=[[0,0],[0,1],[1,0],[1,1],[2,0],[3,0],[4,0]]+[[5,i] for i in range(4 if QUICK else 25)]
    c.add("ctlstubs.scm+bandfun.scm",a,must_reach=("end","mode_0","mode_1","mode_2","mode_3","mode_4","mode_5"),functions=["mpb.scm:"+x for x in "output-hfield output-bfield output-dfield output-efield (and components) output-bpwr output-hpwr output-dpwr output-charge-density output-poynting output-tot-pwr get-poynting get-tot-pwr get-efield get-charge-density output-field fix-hfield-phase fix-bfield-phase fix-dfield-phase fix-efield-phase output-dpwr-in-objects combine-band-functions output-at-kpoint apply-band-func compute-group-velocities display-group-velocities display-zparities display-yparities fix-phase-consistency next-factor2357 field-copy field-map!".split()])
    c.bounds=["any band 1..40, arbitrary complex field values at a point, arbitrary energies and thresholds, arbitrary k-points; three bands for per-band reports; two states for phase consistency; grid sizes up to 160"]
    return c.run()
