From 0d118160b4838323d93056ee8a17c68d887edda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 01/30] fix: trajectory readers deliver only complete steps,
 with the times of those steps

A file cut inside its last step (running or crashed simulation) made the readers fail
or deliver a step with a truncated number; times were also recorded for skipped and
incomplete steps, and the OUTCAR reader did not skip the steps before initial_cut.
---
 .../interface/iofile/trajectory_parsers.py    | 67 +++++++++++++------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 550f507..a844c0c 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -5,6 +5,20 @@ import dynaphopy.dynamics as dyn
 import warnings
 
 
+# Read the next number_of_atoms lines of coordinates
+def read_coordinates_block(file_map, number_of_atoms, number_of_dimensions):
+
+    coordinates = []
+    for i in range(number_of_atoms):
+        line = file_map.readline()
+        # A line without end is being written (or the file was cut): the step is not complete
+        if not line.endswith(b'\n'):
+            return None
+        coordinates.append(line.split()[0:number_of_dimensions])
+
+    return np.array(coordinates, dtype=float)
+
+
 # VASP OUTCAR file parser
 def read_vasp_trajectory(file_name, structure=None, time_step=None,
                          limit_number_steps=10000000,  # Maximum number of steps read (for security)
@@ -74,9 +88,6 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         while True:
 
             counter +=1
-            #Initial cut control
-            if initial_cut > counter:
-                continue
 
             position_number=file_map.find(b'POSITION')
             if position_number < 0 : break
@@ -85,18 +96,27 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             file_map.readline()
             file_map.readline()
 
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
+            #Initial cut control
+            if initial_cut > counter:
+                continue
+
+            read_coordinates = read_coordinates_block(file_map, number_of_atoms, number_of_dimensions) # in angstrom
+            if read_coordinates is None:
+                print("Warning! step {0} is not complete. It will not be read".format(counter))
+                break
 
-            read_coordinates = np.array(read_coordinates, dtype=float) # in angstrom
             if template is not None:
                 indexing = np.argsort(template)
                 read_coordinates = read_coordinates[indexing, :]
 
             position_number=file_map.find(b'energy(')
+            if position_number < 0: break
             file_map.seek(position_number)
-            read_energy = file_map.readline().split()[2]
+            energy_line = file_map.readline()
+            if not energy_line.endswith(b'\n'):
+                print("Warning! step {0} is not complete. It will not be read".format(counter))
+                break
+            read_energy = energy_line.split()[2]
             trajectory.append(read_coordinates.flatten()) #in angstrom
             energy.append(np.array(read_energy, dtype=float))
 
@@ -199,8 +219,8 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
             file_map.seek(position_number)
             file_map.readline()
-            time.append(float(file_map.readline()))
-
+            time_line = file_map.readline()
+            if not time_line.endswith(b'\n'): break
 
             if number_of_atoms is None:
                 #Read number of atoms
@@ -282,20 +302,22 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                         exit()
 
             position_number = file_map.find(b'ITEM: ATOMS')
+            if position_number < 0: break
 
             file_map.seek(position_number)
-            lammps_labels=file_map.readline()
+            labels_line = file_map.readline()
+            if not labels_line.endswith(b'\n'): break
+            lammps_labels = labels_line
 
             #Initial cut control
             if initial_cut > counter:
-                time = []
                 continue
 
             #Reading coordinates
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-            read_coordinates = np.array(read_coordinates, dtype=float)
+            read_coordinates = read_coordinates_block(file_map, number_of_atoms, number_of_dimensions)
+            if read_coordinates is None:
+                print("Warning! step {0} is not complete. It will not be read".format(counter))
+                break
 
             if template is not None:
                 indexing = np.argsort(template)
@@ -307,6 +329,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
                 else:
                     data.append(read_coordinates) #in angstroms
+                time.append(float(time_line))
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
@@ -421,7 +444,8 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             if position_number < 0: break
 
             file_map.seek(position_number)
-            time.append(float(file_map.readline().split(b'=')[1]))
+            time_line = file_map.readline()
+            if not time_line.endswith(b'\n'): break
 
             if memmap:
                 if end_cut:
@@ -436,11 +460,11 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
                 continue
 
             #Reading coordinates
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
+            read_coordinates = read_coordinates_block(file_map, number_of_atoms, number_of_dimensions)  # in angstroms
+            if read_coordinates is None:
+                print("Warning! step {0} is not complete. It will not be read".format(counter))
+                break
 
-            read_coordinates = np.array(read_coordinates, dtype=float)  # in angstroms
             if template is not None:
                 indexing = np.argsort(template)
                 read_coordinates = read_coordinates[indexing, :]
@@ -450,6 +474,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
                 else:
                     data.append(read_coordinates) #in angstroms
+                time.append(float(time_line.split(b'=')[1]))
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
-- 
2.43.0


From f6affc04d27dbb84871e29e0f51023e2005a2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 02/30] fix: memory mapped trajectories use private temporal
 files and the number of steps available

Temporal files were named after the process only, so two trajectories in memory mapping
mode shared (and deleted) each other's data, existing files were overwritten, and a file
which could not be deleted, or an array without file, kept the others from being removed.
Readers returned zeros for requested steps which are not in the file, ignored last_steps
and XDATCAR kept only the last step. crop_trajectory failed in memory mapping mode.
---
 dynaphopy/dynamics.py                         | 76 +++++++++++++------
 .../interface/iofile/trajectory_parsers.py    | 28 ++++---
 2 files changed, 69 insertions(+), 35 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 9771bcf..7c7921d 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -1,6 +1,49 @@
 import numpy as np
 from dynaphopy.displacements import atomic_displacements
 import os
+import tempfile
+import weakref
+
+
+# Files created by temporal_memmap and not removed yet (name: process that created it)
+_temporal_files = {}
+
+
+def temporal_memmap(name, shape, temp_directory=''):
+    """
+    Create an array mapped into a new file which is not shared with any other array or process.
+    The file is removed with the array, if it was not done before (see remove_temporal_file)
+
+    :param name: label used in the name of the file
+    :param shape: shape of the array
+    :param temp_directory: directory where the file is created (default: working directory)
+    :return: mapped array
+    """
+    descriptor, filename = tempfile.mkstemp(prefix='{0}.{1}.'.format(name, os.getpid()),
+                                            dir=os.path.abspath(temp_directory))
+    os.close(descriptor)
+    _temporal_files[filename] = os.getpid()
+    try:
+        mapped_array = np.memmap(filename, dtype='complex', mode='w+', shape=shape)
+    except BaseException:
+        remove_temporal_file(filename)
+        raise
+
+    weakref.finalize(mapped_array, remove_temporal_file, filename)
+    return mapped_array
+
+
+def remove_temporal_file(filename):
+    """
+    Remove a file created by temporal_memmap (any other file is left untouched)
+    """
+    if _temporal_files.get(filename) != os.getpid():
+        return
+    del _temporal_files[filename]
+    try:
+        os.remove(filename)
+    except OSError as error:
+        print('Warning! temporal file {0} could not be removed: {1}'.format(filename, error))
 
 
 class Dynamics:
@@ -53,13 +96,11 @@ class Dynamics:
     def __del__(self):
         #Clean all temporal files from memmap
         if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._relative_trajectory, self._velocity_mass_average]:
-                try:
-                    filename = mapped_array.filename
-                except AttributeError:
-                    continue
-                del mapped_array
-                os.remove(filename)
+            for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
+                                 self._relative_trajectory, self._velocity_mass_average]:
+                filename = getattr(mapped_array, 'filename', None)
+                if filename is not None:
+                    remove_temporal_file(str(filename))
 
 # A bit messy, has to be fixed
     def crop_trajectory(self, last_steps):
@@ -94,15 +135,7 @@ class Dynamics:
 
         self._velocity_mass_average = None
 
-        if self._memmap:
-            filename = self._relative_trajectory.filename
-            self._relative_trajectory = None
-            try:
-                os.remove(filename)
-            except:
-                pass
-        else:
-            self._relative_trajectory = None
+        self._relative_trajectory = None
 
         # print("Using {0} steps".format(self.velocity.shape[0]))
 
@@ -143,8 +176,7 @@ class Dynamics:
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
             if self._memmap:
-                self._velocity_mass_average = np.memmap(self._temp_directory+'velocity_mass.{0}'.format(os.getpid()),
-                                                        dtype='complex', mode='w+', shape=self.velocity.shape)
+                self._velocity_mass_average = temporal_memmap('velocity_mass', self.velocity.shape, self._temp_directory)
             else:
                 self._velocity_mass_average = np.empty_like(self.velocity)
 
@@ -167,8 +199,7 @@ class Dynamics:
 
 
             if self._memmap:
-                normalized_trajectory = np.memmap(self._temp_directory+'r_trajectory.{0}'.format(os.getpid()),
-                                                  dtype='complex', mode='w+', shape=trajectory.shape)
+                normalized_trajectory = temporal_memmap('r_trajectory', trajectory.shape, self._temp_directory)
             else:
                 normalized_trajectory = self.trajectory.copy()
 
@@ -315,10 +346,7 @@ class Dynamics:
         if self._velocity is None:
             print('No velocity provided! calculating it from coordinates...')
             if self._memmap:
-                self._velocity = np.memmap(self._temp_directory+'velocity.{0}'.format(os.getpid()),
-                                           dtype='complex',
-                                           mode='w+',
-                                           shape=self.get_relative_trajectory().shape)
+                self._velocity = temporal_memmap('velocity', self.get_relative_trajectory().shape, self._temp_directory)
             else:
                 self._velocity = np.zeros_like(self.get_relative_trajectory(), dtype=complex)
             for i in range(self.get_number_of_atoms()):
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index a844c0c..c2b75d3 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -296,7 +296,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
                 if memmap:
                     if end_cut:
-                        data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                        data = dyn.temporal_memmap('trajectory', (end_cut - initial_cut+1, number_of_atoms, number_of_dimensions), temp_directory)
                     else:
                         print('Memory mapping requires to define reading range (use read_from/read_to option)')
                         exit()
@@ -348,12 +348,15 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        # The file may contain less steps than requested
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     # Check position/velocity dump
@@ -447,9 +450,9 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             time_line = file_map.readline()
             if not time_line.endswith(b'\n'): break
 
-            if memmap:
+            if memmap and counter == 1:
                 if end_cut:
-                    data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                    data = dyn.temporal_memmap('trajectory', (end_cut - initial_cut+1, number_of_atoms, number_of_dimensions), temp_directory)
                 else:
                     print('Memory mapping requires to define reading range (use read_from/read_to option)')
                     exit()
@@ -493,12 +496,15 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        # The file may contain less steps than requested
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     return dyn.Dynamics(structure=structure,
-- 
2.43.0


From 514704e825a0ce2bf020380e225cbb8768cb88c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 03/30] fix: trajectory results follow the steps in use and the
 request, not earlier calls

Mean displacements were kept after crop_trajectory and whatever use_average_positions,
velocities calculated from coordinates depended on being requested before or after a
crop, and an interrupted calculation of velocities left partially filled arrays in use.
---
 dynaphopy/dynamics.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 7c7921d..8c16eed 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -66,6 +66,7 @@ class Dynamics:
         self._supercell = supercell
         self._memmap=memmap
 
+        self._velocity_from_coordinates = False
         self._time_step_average = None
         self._velocity_mass_average = None
         self._relative_trajectory = None
@@ -128,12 +129,17 @@ class Dynamics:
         if self._time is not None:
             self._time = self._time[-last_steps:]
 
+        self._velocity_mass_average = None
+        self._mean_displacement_matrix = None
+
+        # Velocity obtained from coordinates corresponds to the steps that were available
+        if self._velocity_from_coordinates:
+            self._velocity = None
+
         if last_steps > self.velocity.shape[0]:
             print("Warning: specified step number larger than available")
 
-        self.velocity = self.velocity[-last_steps:, :, :]
-
-        self._velocity_mass_average = None
+        self._velocity = self.velocity[-last_steps:, :, :]
 
         self._relative_trajectory = None
 
@@ -176,14 +182,16 @@ class Dynamics:
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
             if self._memmap:
-                self._velocity_mass_average = temporal_memmap('velocity_mass', self.velocity.shape, self._temp_directory)
+                velocity_mass_average = temporal_memmap('velocity_mass', self.velocity.shape, self._temp_directory)
             else:
-                self._velocity_mass_average = np.empty_like(self.velocity)
+                velocity_mass_average = np.empty_like(self.velocity)
 
             supercell = self.get_supercell_matrix()
             for i in range(self.get_number_of_atoms()):
-                self._velocity_mass_average[:, i, :] = (self.velocity[:, i, :] *
-                                                        np.sqrt(self.structure.get_masses(supercell=supercell)[i]))
+                velocity_mass_average[:, i, :] = (self.velocity[:, i, :] *
+                                                  np.sqrt(self.structure.get_masses(supercell=supercell)[i]))
+
+            self._velocity_mass_average = velocity_mass_average
 
         return self._velocity_mass_average
 
@@ -237,7 +245,7 @@ class Dynamics:
 
     def get_mean_displacement_matrix(self, use_average_positions=False):
 
-        if self._mean_displacement_matrix is None:
+        if self._mean_displacement_matrix is None or self._mean_displacement_average != use_average_positions:
 
             atom_type = self.structure.get_atom_type_index()
             number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]
@@ -266,6 +274,7 @@ class Dynamics:
                                                                              ).real / primtive_normalization
 
             self._mean_displacement_matrix = mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
+            self._mean_displacement_average = use_average_positions
 
         return self._mean_displacement_matrix
 
@@ -346,16 +355,20 @@ class Dynamics:
         if self._velocity is None:
             print('No velocity provided! calculating it from coordinates...')
             if self._memmap:
-                self._velocity = temporal_memmap('velocity', self.get_relative_trajectory().shape, self._temp_directory)
+                velocity = temporal_memmap('velocity', self.get_relative_trajectory().shape, self._temp_directory)
             else:
-                self._velocity = np.zeros_like(self.get_relative_trajectory(), dtype=complex)
+                velocity = np.zeros_like(self.get_relative_trajectory(), dtype=complex)
             for i in range(self.get_number_of_atoms()):
                 for j in range(self.structure.get_number_of_dimensions()):
-                    self._velocity[:, i, j] = np.gradient(self.get_relative_trajectory()[:, i, j],
-                                                          self.get_time_step_average())
+                    velocity[:, i, j] = np.gradient(self.get_relative_trajectory()[:, i, j],
+                                                    self.get_time_step_average())
+
+            self._velocity = velocity
+            self._velocity_from_coordinates = True
 
         return self._velocity
 
     @velocity.setter
     def velocity(self,velocity):
-        self._velocity = velocity
\ No newline at end of file
+        self._velocity = velocity
+        self._velocity_from_coordinates = False
-- 
2.43.0


From 559796288dd77e7a2ea59ddcd7590b09d22f8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 04/30] fix: loading a window or joining hdf5 files keeps the
 times of the steps in use

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 scripts/concath5                       | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 047f259..ef6a20b 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -701,7 +701,7 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
         reduced_q_vector = hdf5_file['reduced_q_vector'][:]
         print("Load trajectory projected onto {0}".format(reduced_q_vector))
 
-    time = hdf5_file['time'][:]
+    time = hdf5_file['time'][initial_cut-1:final_cut]
     supercell = hdf5_file['super_cell'][:]
     hdf5_file.close()
 
diff --git a/scripts/concath5 b/scripts/concath5
index e9e6a80..8a1109f 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -92,6 +92,8 @@ if args.velocity_only:
     trajectory = None
     vc = None
 
+time = time[first:]
+
 if velocity is not None:
     velocity = velocity[first:]
 
@@ -105,7 +107,12 @@ print(args.input[0])
 
 for arg in args.input[1:]:
     print(arg)
-    new_vc, new_velocity, new_trajectory = read_file_hdf5(arg)[0:3]
+    new_vc, new_velocity, new_trajectory, new_time = read_file_hdf5(arg)[0:4]
+
+    # time axis of the joined steps goes on where the previous file ends
+    new_time = new_time[first:]
+    step = np.diff(np.concatenate((time, new_time)) if len(time) < 2 else time)[:1]
+    time = np.concatenate((time, new_time - new_time[:1] + time[-1:] + step), axis=0)
 
     if trajectory is not None:
         trajectory = np.concatenate((trajectory, new_trajectory[first:]), axis=0)
-- 
2.43.0


From d642e080e65bcb786332429f37e78fe9e090728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 05/30] fix: session results follow the current settings, not
 cached results of earlier ones

---
 dynaphopy/__init__.py | 58 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ffe149..d6c1b53 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -27,18 +27,22 @@ class Quasiparticle:
 
         self._dynamic = dynamic
         self._vc = vc
+        self._vc_loaded = vc is not None  # given projection, cannot be recalculated
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_direct_coordinate = None
         self._power_spectrum_partials = None
         self._bands = None
         self._renormalized_bands = None
         self._renormalized_force_constants = None
         self._commensurate_points_data = None
+        self._commensurate_points_auto_range = None
         self._temperature = None
+        self._temperature_from_velocity = None
         self._force_constants_qha = None
         self._parameters = parameters.Parameters()
         self.crop_trajectory(last_steps)
@@ -46,12 +50,15 @@ class Quasiparticle:
 
     # Crop trajectory
     def crop_trajectory(self, last_steps):
-        if self._vc is None:
+        self.projections_clear()
+        self._temperature_from_velocity = None
+        if not self._vc_loaded:
             self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
             if last_steps is not None:
                 self._vc = self._vc[-last_steps:, :, :]
+                self._dynamic.set_time(self._dynamic.get_time()[-last_steps:])
             print("Using {0} steps".format(len(self._vc)))
 
     # Memory clear methods
@@ -59,15 +66,23 @@ class Quasiparticle:
         self._eigenvectors = None
         self._frequencies = None
         self._vc = None
+        self._vc_loaded = False
         self._vq = None
         self._power_spectrum_direct = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_phonon = None
 
+    def projections_clear(self):
+        if not self._vc_loaded:
+            self._vc = None
+        self._vq = None
+        self.power_spectra_clear()
+
     def power_spectra_clear(self):
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_partials = None
         self.force_constants_clear()
 
     def force_constants_clear(self):
@@ -131,6 +146,8 @@ class Quasiparticle:
 
     def set_projection_onto_atom_type(self, atom_type):
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
+            if atom_type != self.parameters.project_on_atom:
+                self.projections_clear()
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
@@ -570,7 +587,7 @@ class Quasiparticle:
     def print_phonon_dispersion_bands(self):
         if self._bands is None:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
-                                                                       self.get_band_ranges_and_labels(),
+                                                                       self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
         np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
@@ -784,8 +801,9 @@ class Quasiparticle:
         number_of_dimensions = self.dynamic.structure.get_number_of_dimensions()
         projected_atom_type = self.parameters.project_on_atom
 
-        if self._power_spectrum_direct is None:
+        if self._power_spectrum_direct is None or self._power_spectrum_direct_coordinate != projection_on_coordinate:
             print("Calculation full power spectrum")
+            self._power_spectrum_direct = None
 
             velocity_mass_average = self.dynamic.get_velocity_mass_average()
 
@@ -812,22 +830,23 @@ class Quasiparticle:
 
             # Memory efficient algorithm
             if self.parameters.silent:
-                self._power_spectrum_direct = np.zeros_like(self.parameters.frequency_range[None].T)
+                power_spectrum_direct = np.zeros_like(self.parameters.frequency_range[None].T)
                 for i in range(velocity_mass_average.shape[1]):
                     for j in range(velocity_mass_average.shape[2]):
-                        self._power_spectrum_direct += \
+                        power_spectrum_direct += \
                             (power_spectrum_functions[self.parameters.power_spectra_algorithm])[0](
                                 velocity_mass_average[:, i, j][None].T,
                                 self.dynamic,
                                 self.parameters)
 
             else:
-                self._power_spectrum_direct = (power_spectrum_functions[self.parameters.power_spectra_algorithm])[0](
+                power_spectrum_direct = (power_spectrum_functions[self.parameters.power_spectra_algorithm])[0](
                     velocity_mass_average.swapaxes(1, 2).reshape(-1, size),
                     self.dynamic,
                     self.parameters)
 
-            self._power_spectrum_direct = np.sum(self._power_spectrum_direct, axis=1)
+            self._power_spectrum_direct_coordinate = projection_on_coordinate
+            self._power_spectrum_direct = np.sum(power_spectrum_direct, axis=1)
         return self._power_spectrum_direct
 
     def get_power_spectrum_partials(self, save_to_file=None):
@@ -837,17 +856,19 @@ class Quasiparticle:
 
             velocity_mass_average = self.dynamic.get_velocity_mass_average()
 
-            self._power_spectrum_partials = (power_spectrum_functions[self.parameters.power_spectra_algorithm])[0](
+            power_spectrum_partials = (power_spectrum_functions[self.parameters.power_spectra_algorithm])[0](
                 velocity_mass_average[:, :, 0],
                 self.dynamic,
                 self.parameters)
 
             for i in [1, 2]:
-                self._power_spectrum_partials += (power_spectrum_functions[self.parameters.power_spectra_algorithm])[0](
+                power_spectrum_partials += (power_spectrum_functions[self.parameters.power_spectra_algorithm])[0](
                     velocity_mass_average[:, :, i],
                     self.dynamic,
                     self.parameters)
 
+            self._power_spectrum_partials = power_spectrum_partials
+
         if save_to_file is not None:
             np.savetxt(save_to_file, np.hstack([self.get_frequency_range()[None].T, self._power_spectrum_partials]))
 
@@ -1084,12 +1105,17 @@ class Quasiparticle:
         energy.boltzmann_distribution(self.dynamic, self.parameters)
 
     def get_temperature(self):
-        if not self._temperature:
+        if self._temperature:
+            return self._temperature
+
+        if not self._temperature_from_velocity:
             save_status = self.parameters.silent
             self.parameters.silent = True
-            self._temperature = energy.boltzmann_distribution(self.dynamic, self.parameters)
-            self.parameters.silent = save_status
-        return self._temperature
+            try:
+                self._temperature_from_velocity = energy.boltzmann_distribution(self.dynamic, self.parameters)
+            finally:
+                self.parameters.silent = save_status
+        return self._temperature_from_velocity
 
     def set_temperature(self, temperature):
         self._temperature = temperature
@@ -1099,8 +1125,9 @@ class Quasiparticle:
 
     def get_commensurate_points_data(self, auto_range=True):
 
-        if self._commensurate_points_data is None:
+        if self._commensurate_points_data is None or (auto_range and not self._commensurate_points_auto_range):
 
+            self._commensurate_points_auto_range = False
             if auto_range:
                 # Get range from harmonic DOS
                 phonopy_dos = pho_interface.obtain_phonopy_dos(self.dynamic.structure,
@@ -1189,6 +1216,7 @@ class Quasiparticle:
                                               'frequency_shifts': frequency_shifts,
                                               'q_points': q_points_list,
                                               'fc_supercell': fc_supercell}
+            self._commensurate_points_auto_range = auto_range
 
             self.set_reduced_q_vector(initial_reduced_q_vector)
 
@@ -1243,6 +1271,7 @@ class Quasiparticle:
     def write_quasiparticles_data(self, filename="quasiparticles_data.yaml", with_extra=False):
         quasiparticle_data = self.get_commensurate_points_data()
         if with_extra:
+            quasiparticle_data = dict(quasiparticle_data)
             quasiparticle_data.update(self.get_commensurate_points_properties())
         reading.save_quasiparticle_data_to_file(quasiparticle_data, filename)
 
@@ -1444,6 +1473,7 @@ class Quasiparticle:
 
     # QHA methods
     def set_qha_force_constants(self, fc_qha_file):
+        self.force_constants_clear()
         self._force_constants_qha = pho_interface.get_force_constants_from_file(fc_qha_file,
                                                                                 fc_supercell=self.dynamic.structure.get_supercell_phonon())
 
-- 
2.43.0


From 058cc7d90f12963bcd6cf33330624d97ec144e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 06/30] fix: an interrupted calculation leaves the wave vector
 that was set

---
 dynaphopy/__init__.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index d6c1b53..1d41c93 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -8,6 +8,7 @@ import dynaphopy.analysis.fitting as fitting
 import dynaphopy.analysis.modes as modes
 import dynaphopy.analysis.coordinates as trajdist
 import dynaphopy.analysis.thermal_properties as thm
+import functools
 import numpy as np
 import matplotlib.pyplot as plt
 
@@ -19,6 +20,19 @@ except ImportError:
     from scipy.integrate import simpson as simps
 
 
+def _restore_wave_vector(function):
+    # Methods that go through several wave vectors leave the initial one if they are interrupted
+    @functools.wraps(function)
+    def wrapper(self, *args, **kwargs):
+        initial_reduced_q_vector = self.get_reduced_q_vector()
+        try:
+            return function(self, *args, **kwargs)
+        except BaseException:
+            self.set_reduced_q_vector(initial_reduced_q_vector)
+            raise
+    return wrapper
+
+
 class Quasiparticle:
     def __init__(self,
                  dynamic,
@@ -735,6 +749,7 @@ class Quasiparticle:
                 print('{0} : {1}'.format(i, fitting_functions[i]))
             exit()
 
+    @_restore_wave_vector
     def get_power_spectrum_phonon(self):
         if self._power_spectrum_phonon is None:
             print("Calculating phonon projection power spectra")
@@ -762,6 +777,7 @@ class Quasiparticle:
 
         return self._power_spectrum_phonon
 
+    @_restore_wave_vector
     def get_power_spectrum_wave_vector(self):
 
         if self._power_spectrum_wave_vector is None:
@@ -1123,6 +1139,7 @@ class Quasiparticle:
     def get_algorithm_list(self):
         return power_spectrum_functions.values()
 
+    @_restore_wave_vector
     def get_commensurate_points_data(self, auto_range=True):
 
         if self._commensurate_points_data is None or (auto_range and not self._commensurate_points_auto_range):
-- 
2.43.0


From dbef16a99ac5c8719c402354e5a8e25da3d449f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 07/30] fix: option to save renormalized frequencies is stored

---
 dynaphopy/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/parameters.py b/dynaphopy/parameters.py
index a8e014c..7868725 100644
--- a/dynaphopy/parameters.py
+++ b/dynaphopy/parameters.py
@@ -268,7 +268,7 @@ class Parameters(metaclass=Singleton):
 
     @save_renormalized_frequencies.setter
     def save_renormalized_frequencies(self, save_renormalized_frequencies):
-        self._save_renormalized_frequenciese = save_renormalized_frequencies
+        self._save_renormalized_frequencies = save_renormalized_frequencies
 
     @property
     def mesh_phonopy(self):
-- 
2.43.0


From 1dc0ef99e5cb12ef3d14bb99a3be69c6d0010643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 08/30] fix: time step follows the steps in use

---
 dynaphopy/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 8c16eed..ffc486e 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -128,6 +128,7 @@ class Dynamics:
             self._energy = self._energy[-last_steps:]
         if self._time is not None:
             self._time = self._time[-last_steps:]
+            self._time_step_average = None
 
         self._velocity_mass_average = None
         self._mean_displacement_matrix = None
@@ -152,6 +153,7 @@ class Dynamics:
 
     def set_time(self, time):
         self._time = time
+        self._time_step_average = None
 
     def get_time(self):
         return self._time
-- 
2.43.0


From efe280e41619f5624057752758450b528e4d5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 09/30] fix: native kernels use all the data given, release
 their memory and report allocation failures

---
 c/correlation.c   | 16 +++++++++++++++-
 c/displacements.c | 21 ++++++++++++++++----
 c/mem.c           | 49 ++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 70 insertions(+), 16 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 02261d5..3d66007 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -132,11 +132,20 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
     //PowerSpectrum_object = (PyArrayObject *) PyArray_FromDims(1, dims,NPY_DOUBLE);
     PowerSpectrum_object = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_DOUBLE);
 
+    if (PowerSpectrum_object == NULL) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     double *PowerSpectrum  = (double*)PyArray_DATA((PyArrayObject *)PowerSpectrum_object);
 
     // Maximum Entropy Method Algorithm
     if (IntMethod < 0 || IntMethod > 1) {
-        puts ("\nIntegration method selected does not exist\n");
+        PyErr_SetString(PyExc_ValueError, "Integration method selected does not exist");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        Py_DECREF(PowerSpectrum_object);
         return NULL;
     }
 
@@ -145,6 +154,11 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         AngularFrequency = Frequency[i]*2.0*M_PI;
         PowerSpectrum[i] = EvaluateCorrelation(AngularFrequency, Velocity, NumberOfData, TimeStep, Increment, IntMethod);
     }
+
+    // Free python memory
+    Py_DECREF(velocity_array);
+    Py_DECREF(frequency_array);
+
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
 }
diff --git a/c/displacements.c b/c/displacements.c
index a1ecf21..e5ea149 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -106,7 +106,7 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     PyObject *Positions_array = PyArray_FROM_OTF(Positions_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     PyObject *Cell_array = PyArray_FROM_OTF(Cell_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
 
-    if (Cell_array == NULL || Trajectory_array == NULL) {
+    if (Cell_array == NULL || Trajectory_array == NULL || Positions_array == NULL) {
          Py_XDECREF(Cell_array);
          Py_XDECREF(Trajectory_array);
          Py_XDECREF(Positions_array);
@@ -127,7 +127,15 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
 
     npy_intp dims[]={NumberOfData, NumberOfDimensions};
     Displacement_object=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_CDOUBLE);
-    Displacement=pymatrix_to_c_array_complex( Displacement_object);
+    Displacement = (Displacement_object == NULL) ? NULL : pymatrix_to_c_array_complex( Displacement_object);
+
+    if (Displacement == NULL) {
+         Py_XDECREF(Displacement_object);
+         Py_DECREF(Cell_array);
+         Py_DECREF(Trajectory_array);
+         Py_DECREF(Positions_array);
+         return PyErr_NoMemory();
+    }
 
 
 //  Create a pointer array from cell matrix (to be improved)
@@ -184,7 +192,8 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     //Free memory
     for (int k=0 ; k<NumberOfDimensions; k++) free(Difference[k]); free(Difference);
     for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_i[k]); free(Cell_i);
- 	free(Cell_c);
+    for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_c[k]); free(Cell_c);
+    free(Displacement);
 
     // Free python memory
     Py_DECREF(Trajectory_array);
@@ -205,7 +214,8 @@ static _Dcomplex **pymatrix_to_c_array_complex(PyArrayObject *array)  {
       long n = PyArray_DIMS(array)[0];
       long m = PyArray_DIMS(array)[1];
 
-      _Dcomplex ** c = malloc(n*sizeof(_Dcomplex));
+      _Dcomplex ** c = malloc((n+1)*sizeof(_Dcomplex));
+      if (c == NULL) return NULL;
 
       //_Dcomplex *a = (_Dcomplex *) (*array).data;  /* pointer to array data as double _Complex */
 
@@ -260,6 +270,9 @@ static double  **matrix_inverse ( double ** a ,int n){
 		}
 	}
 
+	for (int i = 0; i < n; i++) free(cof[i]);
+	free(cof);
+
 	return b;
 
 };
diff --git a/c/mem.c b/c/mem.c
index ba344f2..4da2f18 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -31,7 +31,7 @@ _Dcomplex _Cmulcc(_Dcomplex num1, _Dcomplex num2){
 
 
 static double FrequencyEvaluation(double Delta, double  Coefficients[], int m, double xms);
-static double GetCoefficients(double  *data, int n, int m, double  d[]);
+static double GetCoefficients(double  *data, int n, int m, double  d[], int *error);
 static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *keywords);
 
 
@@ -132,6 +132,12 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
     PowerSpectrum_object = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_DOUBLE);
 
 
+    if (PowerSpectrum_object == NULL) {
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     double *PowerSpectrum  = (double*)PyArray_DATA(PowerSpectrum_object);
 
     //Declare variables
@@ -143,14 +149,18 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
     double *Velocity_r = (double *)malloc(NumberOfData * sizeof(double));
     double *Velocity_i = (double *)malloc(NumberOfData * sizeof(double));
 
+    int MemoryError = (Coefficients_r == NULL || Coefficients_i == NULL || Velocity_r == NULL || Velocity_i == NULL);
+    if (MemoryError) goto finish;
+
     for (int i=0; i < NumberOfData; i++)  {
         Velocity_r[i] = (double)creal(Velocity[i]);
         Velocity_i[i] = (double)cimag(Velocity[i]);
     }
 
     // Maximum Entropy Method Algorithm
-    double  MeanSquareDiscrepancy_r = GetCoefficients(Velocity_r, NumberOfData, NumberOfCoefficients, Coefficients_r);
-    double  MeanSquareDiscrepancy_i = GetCoefficients(Velocity_i, NumberOfData, NumberOfCoefficients, Coefficients_i);
+    double  MeanSquareDiscrepancy_r = GetCoefficients(Velocity_r, NumberOfData, NumberOfCoefficients, Coefficients_r, &MemoryError);
+    double  MeanSquareDiscrepancy_i = GetCoefficients(Velocity_i, NumberOfData, NumberOfCoefficients, Coefficients_i, &MemoryError);
+    if (MemoryError) goto finish;
 
     # pragma omp parallel for default(shared) private(AngularFrequency)
     for (int i=0; i < NumberOfFrequencies; i++) {
@@ -167,15 +177,22 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
         PowerSpectrum[i] *= TimeStep;
     }
 
+finish:
     // Free python memory
     Py_DECREF(velocity_array);
     Py_DECREF(frequency_array);
 
     // Free memory
     free(Velocity_r);
+    free(Velocity_i);
     free(Coefficients_r);
     free(Coefficients_i);
 
+    if (MemoryError) {
+        Py_DECREF(PowerSpectrum_object);
+        return PyErr_NoMemory();
+    }
+
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
 }
@@ -196,7 +213,7 @@ static double FrequencyEvaluation(double Delta, double  Coefficients[], int Numb
 }
 
 // Get LP coefficients
-static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoefficients, double  Coefficients[]) {
+static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoefficients, double  Coefficients[], int *error) {
 
     int k, j, i;
     double  p=0.0;
@@ -204,18 +221,24 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  MeanSquareDiscrepancy;
     double  *wk1 = malloc(NumberOfData*sizeof(double));
     double  *wk2 = malloc(NumberOfData*sizeof(double));
-    double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
+    double  *wkm = malloc((NumberOfCoefficients+1)*sizeof(double));
 
+    if (NumberOfData < 2 || wk1 == NULL || wk2 == NULL || wkm == NULL) {
+        if (NumberOfData >= 2) *error = 1;
+        MeanSquareDiscrepancy = 0.0;
+        goto finish;
+    }
 
-    for (j=1; j <= NumberOfData; j++) p += pow(Data[j], 2);
+    // Working arrays start at 1, Data starts at 0
+    for (j=1; j <= NumberOfData; j++) p += pow(Data[j-1], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[1];
-    wk2[NumberOfData-1] = Data[NumberOfData];
+    wk1[1] = Data[0];
+    wk2[NumberOfData-1] = Data[NumberOfData-1];
 
     for (j=2; j <= NumberOfData-1; j++) {
-        wk1[j]=Data[j];
-        wk2[j-1]=Data[j];
+        wk1[j]=Data[j-1];
+        wk2[j-1]=Data[j-1];
     }
 
     for (k=1; k <= NumberOfCoefficients; k++) {
@@ -226,7 +249,10 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             Denominator += pow(wk1[j],2) + pow(wk2[j], 2);
         }
 
-        if (fabs(Denominator) < 1.0e-6) return 0.0;
+        if (fabs(Denominator) < 1.0e-6) {
+            MeanSquareDiscrepancy = 0.0;
+            goto finish;
+        }
 
         Coefficients[k] = 2.0 * Numerator / Denominator;
 
@@ -243,6 +269,7 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             wk2[j]  = wk2[j+1] - wkm[k] * wk1[j+1];
         }
     }
+finish:
     // Free memory
     free(wk1);
     free(wk2);
-- 
2.43.0


From 861098d351af278bbff8f29585cdf0a740757d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 10/30] fix: temporal files of data discarded by a crop are
 removed with it

---
 dynaphopy/dynamics.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index ffc486e..f897aa9 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -97,11 +97,15 @@ class Dynamics:
     def __del__(self):
         #Clean all temporal files from memmap
         if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
-                                 self._relative_trajectory, self._velocity_mass_average]:
-                filename = getattr(mapped_array, 'filename', None)
-                if filename is not None:
-                    remove_temporal_file(str(filename))
+            self._remove_mapped_files([self._velocity, self._trajectory, self._scaled_trajectory,
+                                       self._relative_trajectory, self._velocity_mass_average])
+
+    @staticmethod
+    def _remove_mapped_files(mapped_arrays):
+        for mapped_array in mapped_arrays:
+            filename = getattr(mapped_array, 'filename', None)
+            if filename is not None:
+                remove_temporal_file(str(filename))
 
 # A bit messy, has to be fixed
     def crop_trajectory(self, last_steps):
@@ -109,6 +113,12 @@ class Dynamics:
         if last_steps is None or last_steps <= 0:
             return
 
+        # Files of the data calculated for the steps in use until now
+        if self._memmap:
+            self._remove_mapped_files([self._relative_trajectory, self._velocity_mass_average])
+            if self._velocity_from_coordinates:
+                self._remove_mapped_files([self._velocity])
+
         if self._trajectory is not None:
             self._trajectory = self._trajectory[-last_steps:, :, :]
             self._relative_trajectory = None
-- 
2.43.0


From b420c9fe35df646fb74639247b5e9642c2b38666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 11/30] fix: atom types are kept only once they are complete

---
 dynaphopy/atoms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d5b51e..df03a13 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -290,11 +290,11 @@ class Structure:
         if self._atom_type_index is None:
             primitive_cell_inverse = np.linalg.inv(self.get_primitive_cell())
 
-            self._atom_type_index = np.array(self.get_number_of_cell_atoms() * [None])
+            atom_type_index = np.array(self.get_number_of_cell_atoms() * [None])
             counter = 0
             for i in range(self.get_number_of_cell_atoms()):
-                if self._atom_type_index[i] is None:
-                    self._atom_type_index[i] = counter
+                if atom_type_index[i] is None:
+                    atom_type_index[i] = counter
                     counter += 1
                 for j in range(i+1, self.get_number_of_cell_atoms()):
                     coordinates_atom_i = self.get_positions()[i]
@@ -305,8 +305,8 @@ class Structure:
                     separation = pow(np.linalg.norm(projected_coordinates_atom_j - coordinates_atom_i),2)
 
                     if separation < tolerance and masses[i] == masses[j]:
-                        self._atom_type_index[j] = self._atom_type_index[i]
-        self._atom_type_index = np.array(self._atom_type_index,dtype=int)
+                        atom_type_index[j] = atom_type_index[i]
+            self._atom_type_index = np.array(atom_type_index,dtype=int)
 
         if supercell is None:
             supercell = self.get_number_of_dimensions() * [1]
-- 
2.43.0


From f3667682cc01d6c7e42899c3ff79e90aa173ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 12/30] fix: only a failed fit is reported as a failed fit

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1d41c93..393611c 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1057,7 +1057,7 @@ class Quasiparticle:
                 plt.plot(distance, fitting_function.get_curve(distance),
                          label=fitting_function.curve_name,
                          linewidth=3, color='g')
-            except:
+            except (RuntimeError, KeyError, TypeError, ValueError):
                 print('Gaussian fitting failed')
 
             plt.bar(center, distributions[atom], align='center', width=width)
-- 
2.43.0


From d092dcbb987f779d74176dd391ab8a4ecbe82fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 13/30] fix: atoms order is found from the supercell, not from
 the extent of the atoms

With the atoms on their sites the extent of the atoms rounds to a smaller supercell
if the unit cell has no atom in its upper half; the order was then silently not applied.
---
 dynaphopy/interface/iofile/__init__.py | 8 ++++++--
 dynaphopy/interface/lammps_link.py     | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index ef6a20b..73b2609 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -35,12 +35,12 @@ def check_atoms_order(filename, trajectory_reading_function, structure):
     # Only using first step
     reference = trajectory.trajectory[0]
 
-    template = get_correct_arrangement(reference, structure)
+    template = get_correct_arrangement(reference, structure, supercell=trajectory.get_supercell())
 
     return template
 
 
-def get_correct_arrangement(reference, structure):
+def get_correct_arrangement(reference, structure, supercell=None):
 
     # print structure.get_scaled_positions()
     scaled_coordinates = []
@@ -52,6 +52,10 @@ def get_correct_arrangement(reference, structure):
     number_of_cell_atoms = structure.get_number_of_atoms()
     number_of_supercell_atoms = len(scaled_coordinates)
     supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+    if supercell is not None:
+        # the extent of the atoms does not tell the size of the cell if the last sites are far from its end
+        supercell_dim = np.array(np.round(np.linalg.norm(supercell, axis=1) /
+                                          np.linalg.norm(structure.get_cell(), axis=1)), dtype=int)
 
     unit_cell_scaled_coordinates = scaled_coordinates - np.array(scaled_coordinates, dtype=int)
 
diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a2ec130..f6e0987 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -102,7 +102,7 @@ def generate_lammps_trajectory(structure,
     # xc = lmp.gather_atoms("x", 1, 3)
     # reference = np.array([xc[i] for i in range(na*3)]).reshape((na,3))
 
-    template = get_correct_arrangement(reference, structure)
+    template = get_correct_arrangement(reference, structure, supercell=simulation_cell)
     indexing = np.argsort(template)
 
     lmp.command('variable energy equal pe'.format(int(relaxation_time/time_step)))
-- 
2.43.0


From 29f908bf716aa40b88b5eb0a9ca0cc641e161398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 14/30] fix: lammps atoms are sorted by their identity

x[id-1] applies the permutation instead of inverting it, so velocities and positions
were given to other atoms whenever the storage order was not its own inverse.
---
 dynaphopy/interface/lammps_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index f6e0987..a35be0d 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -94,7 +94,7 @@ def generate_lammps_trajectory(structure,
 
     na = lmp.get_natoms()
     id = lmp.extract_atom("id", 0)
-    id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+    id = np.argsort([id[i] for i in range(na)])
 
     xp = lmp.extract_atom("x", 3)
     reference = np.array([[xp[i][0], xp[i][1], xp[i][2]] for i in range(na)], dtype=float)[id, :]
@@ -123,7 +123,7 @@ def generate_lammps_trajectory(structure,
         energy.append(lmp.extract_variable('energy', 'all', 0))
 
         id = lmp.extract_atom("id", 0)
-        id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+        id = np.argsort([id[i] for i in range(na)])
 
         vc = lmp.extract_atom("v", 3)
         velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
-- 
2.43.0


From 28514f1ea0add8b255fd747f2dfba5f0f12e728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 15/30] fix: last interval of a lammps run is not lost to
 rounding

int(1.2 / 0.1) is 11.
---
 dynaphopy/interface/lammps_link.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a35be0d..16e88e9 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -5,6 +5,11 @@ from lammps import lammps
 from dynaphopy.interface.iofile import get_correct_arrangement
 
 
+def _complete_intervals(time, interval):
+    # The rounding error of the quotient must not drop the last one (0.3/0.1 = 2.9999999999999996)
+    return int(np.round(time / interval, decimals=6))
+
+
 def generate_lammps_trajectory(structure,
                                input_file,
                                total_time=0.1,  # picoseconds
@@ -106,12 +111,12 @@ def generate_lammps_trajectory(structure,
     indexing = np.argsort(template)
 
     lmp.command('variable energy equal pe'.format(int(relaxation_time/time_step)))
-    lmp.command('run {}'.format(int(relaxation_time/time_step)))
+    lmp.command('run {}'.format(_complete_intervals(relaxation_time, time_step)))
 
     if not silent:
         _progress_bar(0, 'lammps')
 
-    n_loops = int(total_time / time_step / sampling_interval)
+    n_loops = _complete_intervals(total_time, time_step * sampling_interval)
     for i in range(n_loops):
         if not silent:
             _progress_bar(float((i+1) * time_step * sampling_interval) / total_time, 'lammps', )
-- 
2.43.0


From 8e22ad1efedd5915c8532f05f0fbf9819968057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:10 +0000
Subject: [PATCH 16/30] fix: close the hdf5 file when saving fails, so that it
 can be saved again

---
 dynaphopy/interface/iofile/__init__.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 73b2609..4866a4e 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -642,26 +642,25 @@ def write_xsf_file(file_name,structure):
 def save_data_hdf5(file_name, time, super_cell, trajectory=None, velocity=None, vc=None, reduced_q_vector=None):
     import h5py
 
-    hdf5_file = h5py.File(file_name, "w")
+    # the file has to be closed also if writing fails, otherwise it cannot be written again
+    with h5py.File(file_name, "w") as hdf5_file:
 
-    if trajectory is not None:
-        hdf5_file.create_dataset('trajectory', data=trajectory)
+        if trajectory is not None:
+            hdf5_file.create_dataset('trajectory', data=trajectory)
 
-    if velocity is not None:
-        hdf5_file.create_dataset('velocity', data=velocity)
+        if velocity is not None:
+            hdf5_file.create_dataset('velocity', data=velocity)
 
-    if vc is not None:
-        hdf5_file.create_dataset('vc', data=vc)
+        if vc is not None:
+            hdf5_file.create_dataset('vc', data=vc)
 
-    if reduced_q_vector is not None:
-        hdf5_file.create_dataset('reduced_q_vector', data=reduced_q_vector)
+        if reduced_q_vector is not None:
+            hdf5_file.create_dataset('reduced_q_vector', data=reduced_q_vector)
 
-
-    hdf5_file.create_dataset('time', data=time)
-    hdf5_file.create_dataset('super_cell', data=super_cell)
+        hdf5_file.create_dataset('time', data=time)
+        hdf5_file.create_dataset('super_cell', data=super_cell)
 
     # print("saved", velocity.shape[0], "steps")
-    hdf5_file.close()
 
 
 def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initial_cut=1, final_cut=None, memmap=False):
-- 
2.43.0


From ac31e5a79fc1d0d0f378f4688e9c8ef120c5998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 17/30] fix: concath5 writes the time axis last, so that an
 incomplete file cannot be loaded

---
 scripts/concath5 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/concath5 b/scripts/concath5
index 8a1109f..394588f 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -54,9 +54,6 @@ def save_data_hdf5(file_name, time, supercell, trajectory=None, velocity=None, v
 
     hdf5_file = h5py.File(file_name, "w")
 
-    hdf5_file.create_dataset('time', data=time)
-    hdf5_file.create_dataset('super_cell', data=supercell)
-
     if reduced_q_vector is not None:
         hdf5_file.create_dataset('reduced_q_vector', data=reduced_q_vector)
 
@@ -73,6 +70,9 @@ def save_data_hdf5(file_name, time, supercell, trajectory=None, velocity=None, v
         hdf5_file.create_dataset('vc', data=vc)
         steps = vc.shape[0]
 
+    # last: if saving the data above fails the file cannot be taken for a complete one
+    hdf5_file.create_dataset('time', data=time)
+    hdf5_file.create_dataset('super_cell', data=supercell)
 
     print ('saved {0} steps'.format(steps))
 
-- 
2.43.0


From d90e4f550b96e016643f2970f048ac302aceb25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 18/30] fix: native kernels reject arrays of other shapes than
 they read

---
 c/correlation.c   | 15 +++++++++++++++
 c/displacements.c | 13 +++++++++++++
 c/mem.c           |  7 +++++++
 3 files changed, 35 insertions(+)

diff --git a/c/correlation.c b/c/correlation.c
index 3d66007..9845df7 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -120,6 +120,13 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         return NULL;
     }
 
+    if (PyArray_NDIM((PyArrayObject *)velocity_array) != 1 || PyArray_NDIM((PyArrayObject *)frequency_array) != 1) {
+        PyErr_SetString(PyExc_ValueError, "frequency and velocity should be one dimensional");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     _Dcomplex  *Velocity = (_Dcomplex *)PyArray_DATA((PyArrayObject *)velocity_array);
     double *Frequency    = (double*)PyArray_DATA((PyArrayObject *)frequency_array);
     int     NumberOfData = (int)PyArray_DIM((PyArrayObject *)velocity_array, 0);
@@ -141,6 +148,14 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
     double *PowerSpectrum  = (double*)PyArray_DATA((PyArrayObject *)PowerSpectrum_object);
 
     // Maximum Entropy Method Algorithm
+    if (Increment < 1) {
+        PyErr_SetString(PyExc_ValueError, "Correlation step should be positive");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        Py_DECREF(PowerSpectrum_object);
+        return NULL;
+    }
+
     if (IntMethod < 0 || IntMethod > 1) {
         PyErr_SetString(PyExc_ValueError, "Integration method selected does not exist");
         Py_DECREF(velocity_array);
diff --git a/c/displacements.c b/c/displacements.c
index e5ea149..cb92c21 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -114,6 +114,19 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     }
 
 
+    if (PyArray_NDIM((PyArrayObject *)Cell_array) != 2 ||
+        PyArray_NDIM((PyArrayObject *)Trajectory_array) != 2 ||
+        PyArray_NDIM((PyArrayObject *)Positions_array) != 1 ||
+        PyArray_DIM((PyArrayObject *)Cell_array, 1) != PyArray_DIM((PyArrayObject *)Cell_array, 0) ||
+        PyArray_DIM((PyArrayObject *)Trajectory_array, 1) != PyArray_DIM((PyArrayObject *)Cell_array, 0) ||
+        PyArray_DIM((PyArrayObject *)Positions_array, 0) != PyArray_DIM((PyArrayObject *)Cell_array, 0)) {
+         PyErr_SetString(PyExc_ValueError, "shapes of trajectory, positions and cell do not match");
+         Py_DECREF(Cell_array);
+         Py_DECREF(Trajectory_array);
+         Py_DECREF(Positions_array);
+         return NULL;
+    }
+
 //  double _Complex *Cell           = (double _Complex*)PyArray_DATA(Cell_array);
     _Dcomplex *Trajectory     = (_Dcomplex*)PyArray_DATA((PyArrayObject *)Trajectory_array);
     double *Positions               = (double*)PyArray_DATA((PyArrayObject *)Positions_array);
diff --git a/c/mem.c b/c/mem.c
index 4da2f18..113fb03 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -120,6 +120,13 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
         return NULL;
     }
 
+    if (PyArray_NDIM((PyArrayObject *)velocity_array) != 1 || PyArray_NDIM((PyArrayObject *)frequency_array) != 1) {
+        PyErr_SetString(PyExc_ValueError, "frequency and velocity should be one dimensional");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        return NULL;
+    }
+
     _Dcomplex  *Velocity = (_Dcomplex *)PyArray_DATA((PyArrayObject *)velocity_array);
     double *Frequency    = (double*)PyArray_DATA((PyArrayObject *)frequency_array);
     int    NumberOfData = (int)PyArray_DIM((PyArrayObject *)velocity_array, 0);
-- 
2.43.0


From a6106884ff45c90790ae1862ea046715e28c4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 19/30] fix: number of MEM coefficients entered in the
 interactive session takes effect on spectra calculated already

---
 dynaphopy/interface/interactive_ui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 809e984..8ae16d7 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -308,8 +308,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
 
                 # SUB OPT 3 : # Number of MEM coefficients
                 if x2 == ord('3'):
-               # calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
-                    calculation.parameters.number_of_coefficients_mem = int(get_param(screen, "Insert number of coefficients"))
+                    calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
                     curses.endwin()
 
                 # SUB OPT 4 : # Number of bins histogram (coordinates and Boltzmann dist.)
-- 
2.43.0


From 20b66ecd8f21f63f6343785af43b12f0274b8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 20/30] fix: other keys than 1 and 2 in the menu of non
 analytical corrections

---
 dynaphopy/interface/interactive_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 8ae16d7..8c5ea6b 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -280,7 +280,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
                 # SUB OPT 2 : # Non analytical corrections
                 if x2 == ord('2'):
                     x3 = ord("9")
-                    while int(chr(int(x3))) > 2:
+                    while x3 != ord('1') and x3 != ord('2'):
                         screen = curses.initscr()
                         screen.clear()
                         screen.border(0)
-- 
2.43.0


From 6e91df9064a1873da35772520ffd2ebc181798b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 21/30] fix: the terminal is restored when an interactive
 session ends by an error

---
 dynaphopy/interface/interactive_ui.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 8c5ea6b..64008cc 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -38,6 +38,17 @@ def get_param(screen, prompt_string):
 
 def interactive_interface(calculation, trajectory, args, structure_file):
 
+    curses.initscr()
+    try:
+        interactive_session(calculation, trajectory, args, structure_file)
+    finally:
+        # restore the terminal also when the session ends by an error
+        if not curses.isendwin():
+            curses.endwin()
+
+
+def interactive_session(calculation, trajectory, args, structure_file):
+
     screen = curses.initscr()
     screen.border(0)
     screen.addstr(5, 7, "Welcome   to   DynaPhoPy " + dynaphopy.__version__)
-- 
2.43.0


From 107542c1ea5617f1ad8124f181be43ff37b71bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 22/30] fix: results follow parameters that are set directly

---
 dynaphopy/__init__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 393611c..310686d 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -59,6 +59,7 @@ class Quasiparticle:
         self._temperature_from_velocity = None
         self._force_constants_qha = None
         self._parameters = parameters.Parameters()
+        self._parameters_in_use = None
         self.crop_trajectory(last_steps)
         #  print('Using {0} time steps for calculation'.format(len(self.dynamic.velocity)))
 
@@ -108,6 +109,21 @@ class Quasiparticle:
         self._bands = None
         self._renormalized_bands = None
 
+    def _check_parameters(self):
+        # Parameters which are set directly: results calculated with other values are discarded
+        parameters_in_use = [self.parameters.use_symmetry,
+                             self.parameters.symmetrize,
+                             self.parameters.symprec,
+                             self.parameters.use_MD_cell_commensurate,
+                             tuple(self.parameters.mesh_phonopy),
+                             self.parameters.correlation_function_step,
+                             self.parameters.integration_method,
+                             self.parameters.zero_padding]
+
+        if parameters_in_use != self._parameters_in_use:
+            self.power_spectra_clear()
+            self._parameters_in_use = parameters_in_use
+
     # Properties
     @property
     def dynamic(self):
@@ -751,6 +767,7 @@ class Quasiparticle:
 
     @_restore_wave_vector
     def get_power_spectrum_phonon(self):
+        self._check_parameters()
         if self._power_spectrum_phonon is None:
             print("Calculating phonon projection power spectra")
 
@@ -779,6 +796,7 @@ class Quasiparticle:
 
     @_restore_wave_vector
     def get_power_spectrum_wave_vector(self):
+        self._check_parameters()
 
         if self._power_spectrum_wave_vector is None:
             print('Calculating wave vector projection power spectrum')
@@ -812,6 +830,7 @@ class Quasiparticle:
         return np.nansum(self._power_spectrum_wave_vector, axis=1)
 
     def get_power_spectrum_full(self, projection_on_coordinate=-1):
+        self._check_parameters()
 
         # temporal interface
         number_of_dimensions = self.dynamic.structure.get_number_of_dimensions()
@@ -866,6 +885,7 @@ class Quasiparticle:
         return self._power_spectrum_direct
 
     def get_power_spectrum_partials(self, save_to_file=None):
+        self._check_parameters()
 
         if self._power_spectrum_partials is None:
             print("Calculation power spectrum partials")
@@ -1141,6 +1161,7 @@ class Quasiparticle:
 
     @_restore_wave_vector
     def get_commensurate_points_data(self, auto_range=True):
+        self._check_parameters()
 
         if self._commensurate_points_data is None or (auto_range and not self._commensurate_points_auto_range):
 
-- 
2.43.0


From 193cfdd1cd71ef80a0eb00db1b9b5feedeb840e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 23/30] fix: an interrupted time step average is not kept

---
 dynaphopy/dynamics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index f897aa9..a47441a 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -180,10 +180,11 @@ class Dynamics:
     def get_time_step_average(self):
 
         if not self._time_step_average :
-            self._time_step_average = 0
+            time_step_average = 0
             for i in range(len(self.get_time()) - 1):
-                self._time_step_average += (self.get_time()[i+1] - self.get_time()[i])/(len(self.get_time()) - 1)
-   #         self._time_step_average /= (self.get_time().shape[0]-1)
+                time_step_average += (self.get_time()[i+1] - self.get_time()[i])/(len(self.get_time()) - 1)
+   #         time_step_average /= (self.get_time().shape[0]-1)
+            self._time_step_average = time_step_average  # only when it is complete
         self._time_step_average = np.round(self._time_step_average, decimals=8)
 
         return self._time_step_average
-- 
2.43.0


From e3e88f0041fb6633020bf1fe63e09fd26d369192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 24/30] fix: force constants can be symmetrized with current
 phonopy

---
 dynaphopy/interface/phonopy_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index d5c647e..7165389 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -393,8 +393,8 @@ def get_renormalized_force_constants(renormalized_frequencies, eigenvectors, str
     if symmetrize:
         print('Symmetrizing force constants')
         set_tensor_symmetry_PJ(force_constants.get_array(),
-                               phonon.supercell.get_cell(),
-                               phonon.supercell.get_scaled_positions(),
+                               phonon.supercell.cell.T,
+                               phonon.supercell.scaled_positions,
                                phonon.symmetry)
 
     return force_constants
-- 
2.43.0


From 7ce2083d50fd8b99fb376385823c7c1b256fba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 25/30] fix: --fcsymm symmetrizes the force constants

---
 scripts/dynaphopy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dynaphopy b/scripts/dynaphopy
index b108877..4720273 100755
--- a/scripts/dynaphopy
+++ b/scripts/dynaphopy
@@ -299,7 +299,7 @@ calculation.parameters.get_data_from_dict(input_parameters)
 
 # Set Parameters
 calculation.parameters.silent = args.silent
-calculation.parameters.degenerate = args.fcsymm
+calculation.parameters.symmetrize = args.fcsymm
 calculation.parameters.use_MD_cell_commensurate = args.MD_commensurate
 calculation.parameters.save_renormalized_frequencies = args.save_renormalized_frequencies
 calculation.parameters.use_NAC = args.nac
-- 
2.43.0


From 64b49e56add0fa6567258b964898b11f01938f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 26/30] fix: rfc_calc reads the quasiparticle data dynaphopy
 saves

---
 scripts/rfc_calc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 35f78ab..f9f955e 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -58,10 +58,10 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     with open(freq_filename, 'r') as stream:
         data_dict = yaml.safe_load(stream)
         for wv in com_points:
-            for q_point in data_dict.values():
+            for q_point in data_dict:
                 # print q_point
                 # print q_point['frequencies']
-                if np.array(q_point['reduced_wave_vector'] == wv).all():
+                if np.allclose(q_point['reduced_wave_vector'], wv, rtol=0, atol=1e-6):
                     renormalized_frequencies.append(q_point['frequencies'])
                     # com_points.append(q_point['reduced_wave_vector'])
 
-- 
2.43.0


From 742cc363da48e97672ad1b223d8ccb61319ace10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 27/30] fix: rfc_calc uses the supercell given with --dim

---
 scripts/rfc_calc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index f9f955e..23f9829 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -42,8 +42,9 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
 
     structure.get_data_from_dict(input_parameters)
 
-    fc_supercell = structure.get_supercell_phonon()
-    if args.dim is None:
+    if args.dim is not None:
+        fc_supercell = np.diag(args.dim)
+    else:
         if 'supercell_phonon' in input_parameters:
             fc_supercell = input_parameters['supercell_phonon']
         else:
-- 
2.43.0


From 06a71dde851c60604a0634aff54ae10d2f5f0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:06 +0000
Subject: [PATCH 28/30] fix: fitdata keeps the first frequency of the data

---
 scripts/fitdata | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fitdata b/scripts/fitdata
index 6fd8ee5..aa5c622 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -63,6 +63,7 @@ except IOError:
 
 if args.bi is None:
     data_num = len(input_file.readline().split())
+    input_file.seek(0)
     degeneracy = [[i] for i in range(1, data_num)]
 else:
     degeneracy = [[int(j) for j in i.split()] for i in ' '.join(args.bi).split(',')]
-- 
2.43.0


From 32d575f8e029de23625839171c8f0a6e98bb8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:54 +0000
Subject: [PATCH 29/30] fix: a failing write of small hdf5 data is reported

---
 dynaphopy/interface/iofile/__init__.py | 27 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 4866a4e..bec9da7 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -645,20 +645,27 @@ def save_data_hdf5(file_name, time, super_cell, trajectory=None, velocity=None,
     # the file has to be closed also if writing fails, otherwise it cannot be written again
     with h5py.File(file_name, "w") as hdf5_file:
 
-        if trajectory is not None:
-            hdf5_file.create_dataset('trajectory', data=trajectory)
+        # errors are not reported when a data set is closed, so they are kept open until all is written
+        datasets = []
+        try:
+            if trajectory is not None:
+                datasets.append(hdf5_file.create_dataset('trajectory', data=trajectory))
 
-        if velocity is not None:
-            hdf5_file.create_dataset('velocity', data=velocity)
+            if velocity is not None:
+                datasets.append(hdf5_file.create_dataset('velocity', data=velocity))
 
-        if vc is not None:
-            hdf5_file.create_dataset('vc', data=vc)
+            if vc is not None:
+                datasets.append(hdf5_file.create_dataset('vc', data=vc))
 
-        if reduced_q_vector is not None:
-            hdf5_file.create_dataset('reduced_q_vector', data=reduced_q_vector)
+            if reduced_q_vector is not None:
+                datasets.append(hdf5_file.create_dataset('reduced_q_vector', data=reduced_q_vector))
 
-        hdf5_file.create_dataset('time', data=time)
-        hdf5_file.create_dataset('super_cell', data=super_cell)
+            datasets.append(hdf5_file.create_dataset('time', data=time))
+            datasets.append(hdf5_file.create_dataset('super_cell', data=super_cell))
+
+            hdf5_file.flush()
+        finally:
+            del datasets[:]
 
     # print("saved", velocity.shape[0], "steps")
 
-- 
2.43.0


From f792263b7ae4f1d841c255eb96bbb46ff504977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:26 +0000
Subject: [PATCH 30/30] fix: concath5 reports a failing write of small data

---
 scripts/concath5 | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/scripts/concath5 b/scripts/concath5
index 394588f..ec34214 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -54,25 +54,30 @@ def save_data_hdf5(file_name, time, supercell, trajectory=None, velocity=None, v
 
     hdf5_file = h5py.File(file_name, "w")
 
+    # errors are not reported when a data set is closed, so they are kept open until all is written
+    datasets = []
+
     if reduced_q_vector is not None:
-        hdf5_file.create_dataset('reduced_q_vector', data=reduced_q_vector)
+        datasets.append(hdf5_file.create_dataset('reduced_q_vector', data=reduced_q_vector))
 
     steps = 0
 
     if trajectory is not None:
-        hdf5_file.create_dataset('trajectory', data=trajectory)
+        datasets.append(hdf5_file.create_dataset('trajectory', data=trajectory))
 
     if velocity is not None:
-        hdf5_file.create_dataset('velocity', data=velocity)
+        datasets.append(hdf5_file.create_dataset('velocity', data=velocity))
         steps = velocity.shape[0]
 
     if vc is not None:
-        hdf5_file.create_dataset('vc', data=vc)
+        datasets.append(hdf5_file.create_dataset('vc', data=vc))
         steps = vc.shape[0]
 
     # last: if saving the data above fails the file cannot be taken for a complete one
-    hdf5_file.create_dataset('time', data=time)
-    hdf5_file.create_dataset('super_cell', data=supercell)
+    datasets.append(hdf5_file.create_dataset('time', data=time))
+    datasets.append(hdf5_file.create_dataset('super_cell', data=supercell))
+
+    hdf5_file.flush()
 
     print ('saved {0} steps'.format(steps))
 
-- 
2.43.0

