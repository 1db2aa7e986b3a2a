"""What is left of a mesh after it was saved and the process crashed: VTK's own files, kept in memory."""
from .world import pv, vtk

_IO = {
    pv.UnstructuredGrid: (vtk.vtkXMLUnstructuredGridWriter, vtk.vtkXMLUnstructuredGridReader),
    pv.StructuredGrid: (vtk.vtkXMLStructuredGridWriter, vtk.vtkXMLStructuredGridReader),
    pv.PolyData: (vtk.vtkXMLPolyDataWriter, vtk.vtkXMLPolyDataReader),
    pv.ImageData: (vtk.vtkXMLImageDataWriter, vtk.vtkXMLImageDataReader),
    pv.RectilinearGrid: (vtk.vtkXMLRectilinearGridWriter, vtk.vtkXMLRectilinearGridReader),
}


def reload(mesh):
    """The mesh as read back from its file."""
    for cls, (w, r) in _IO.items():
        if isinstance(mesh, cls):
            break
    else:
        return mesh
    w, r = w(), r()
    # what pyvista does before it writes: the user dictionary is kept in the field data
    w.SetInputData(mesh)
    w.SetDataModeToAppended()
    w.WriteToOutputStringOn()
    w.Write()
    r.SetReadFromInputString(True)
    r.SetInputString(w.GetOutputString())
    r.Update()
    return pv.wrap(r.GetOutput())
