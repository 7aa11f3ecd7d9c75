from dolfinx.cpp import io
