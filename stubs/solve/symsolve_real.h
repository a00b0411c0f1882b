// Everything that the recording solvers stand in for, before their names are taken over.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/SparseCore>
#include <Eigen/OrderingMethods>
#include "/usr/include/eigen3/Eigen/SparseCholesky"
#include "/usr/include/eigen3/Eigen/SparseLU"
#include "/usr/include/eigen3/Eigen/SparseQR"
#include "/usr/include/eigen3/Eigen/IterativeLinearSolvers"
