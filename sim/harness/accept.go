package main

import "strings"

// alwaysAccepted lists combinations of operation, operand types and operand
// shapes that the library accepts whatever the values of well-formed operands
// are (1: one element, v: column, r: row, m: matrix). They were collected with
// "worker -combos" from runs in which none of them was ever rejected.
var alwaysAccepted = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Fields(acceptedList) {
		m[k] = true
	}
	return m
}()

const acceptedList = `
KMatrix[1].AsSimplifiedExpression
KMatrix[1].At,int,int
KMatrix[1].DerivativeWrt,var
KMatrix[1].Minus,KMatrix[1]
KMatrix[1].Minus,K[1]
KMatrix[1].Minus,float64
KMatrix[1].Multiply,KMatrix[1]
KMatrix[1].Multiply,K[1]
KMatrix[1].Multiply,Polynomial[1]
KMatrix[1].Multiply,float64
KMatrix[1].Plus,KMatrix[1]
KMatrix[1].Plus,K[1]
KMatrix[1].Plus,Variable[1]
KMatrix[1].Plus,float64
KMatrix[1].Power,int
KMatrix[1].Substitute,var,K[1]
KMatrix[1].Substitute,var,Monomial[1]
KMatrix[1].Substitute,var,Polynomial[1]
KMatrix[1].Substitute,var,var
KMatrix[1].SubstituteAccordingTo,map
KMatrix[1].ToDense
KMatrix[1].ToMonomialMatrix
KMatrix[1].ToPolynomialMatrix
KMatrix[1].Transpose
KMatrix[m].AsSimplifiedExpression
KMatrix[m].At,int,int
KMatrix[m].Comparison,*mat.Dense[mrc],ConstrSense[m]
KMatrix[m].Comparison,*mat.Dense[mrcx],ConstrSense[m]
KMatrix[m].Comparison,Dense[mrc],ConstrSense[m]
KMatrix[m].Comparison,Dense[mrcx],ConstrSense[m]
KMatrix[m].Comparison,KMatrix[mrc],ConstrSense[m]
KMatrix[m].Comparison,KMatrix[mrcx],ConstrSense[m]
KMatrix[m].Comparison,MonomialMatrix[mrc],ConstrSense[m]
KMatrix[m].Comparison,MonomialMatrix[mrcx],ConstrSense[m]
KMatrix[m].Comparison,PolynomialMatrix[mrc],ConstrSense[m]
KMatrix[m].Comparison,PolynomialMatrix[mrcx],ConstrSense[m]
KMatrix[m].Comparison,VariableMatrix[mrc],ConstrSense[m]
KMatrix[m].Comparison,VariableMatrix[mrcx],ConstrSense[m]
KMatrix[m].DerivativeWrt,var
KMatrix[m].Eq,*mat.Dense[mrc]
KMatrix[m].Eq,*mat.Dense[mrcx]
KMatrix[m].Eq,Dense[mrc]
KMatrix[m].Eq,Dense[mrcx]
KMatrix[m].Eq,KMatrix[mrc]
KMatrix[m].Eq,KMatrix[mrcx]
KMatrix[m].Eq,MonomialMatrix[mrc]
KMatrix[m].Eq,MonomialMatrix[mrcx]
KMatrix[m].Eq,PolynomialMatrix[mrc]
KMatrix[m].Eq,PolynomialMatrix[mrcx]
KMatrix[m].Eq,VariableMatrix[mrc]
KMatrix[m].Eq,VariableMatrix[mrcx]
KMatrix[m].GreaterEq,*mat.Dense[mrc]
KMatrix[m].GreaterEq,*mat.Dense[mrcx]
KMatrix[m].GreaterEq,Dense[mrc]
KMatrix[m].GreaterEq,Dense[mrcx]
KMatrix[m].GreaterEq,KMatrix[mrc]
KMatrix[m].GreaterEq,KMatrix[mrcx]
KMatrix[m].GreaterEq,MonomialMatrix[mrc]
KMatrix[m].GreaterEq,MonomialMatrix[mrcx]
KMatrix[m].GreaterEq,PolynomialMatrix[mrc]
KMatrix[m].GreaterEq,PolynomialMatrix[mrcx]
KMatrix[m].GreaterEq,VariableMatrix[mrc]
KMatrix[m].GreaterEq,VariableMatrix[mrcx]
KMatrix[m].LessEq,*mat.Dense[mrc]
KMatrix[m].LessEq,*mat.Dense[mrcx]
KMatrix[m].LessEq,Dense[mrc]
KMatrix[m].LessEq,Dense[mrcx]
KMatrix[m].LessEq,KMatrix[mrc]
KMatrix[m].LessEq,KMatrix[mrcx]
KMatrix[m].LessEq,MonomialMatrix[mrc]
KMatrix[m].LessEq,MonomialMatrix[mrcx]
KMatrix[m].LessEq,PolynomialMatrix[mrc]
KMatrix[m].LessEq,PolynomialMatrix[mrcx]
KMatrix[m].LessEq,VariableMatrix[mrc]
KMatrix[m].LessEq,VariableMatrix[mrcx]
KMatrix[m].Minus,*mat.Dense[mrcx]
KMatrix[m].Minus,Dense[mrc]
KMatrix[m].Minus,Dense[mrcx]
KMatrix[m].Minus,KMatrix[mrc]
KMatrix[m].Minus,KMatrix[mrcx]
KMatrix[m].Minus,KVector[1]
KMatrix[m].Minus,K[1]
KMatrix[m].Minus,MonomialMatrix[mrc]
KMatrix[m].Minus,MonomialMatrix[mrcx]
KMatrix[m].Minus,PolynomialMatrix[mrc]
KMatrix[m].Minus,PolynomialMatrix[mrcx]
KMatrix[m].Minus,VariableMatrix[mrc]
KMatrix[m].Minus,VariableMatrix[mrcx]
KMatrix[m].Minus,float64
KMatrix[m].Multiply,Dense[mrcx]
KMatrix[m].Multiply,Dense[mx]
KMatrix[m].Multiply,KMatrix[mrcx]
KMatrix[m].Multiply,KMatrix[mrx]
KMatrix[m].Multiply,KMatrix[mx]
KMatrix[m].Multiply,K[1]
KMatrix[m].Multiply,MonomialMatrix[mrcx]
KMatrix[m].Multiply,MonomialMatrix[mrx]
KMatrix[m].Multiply,MonomialMatrix[mx]
KMatrix[m].Multiply,MonomialMatrix[vrx]
KMatrix[m].Multiply,PolynomialMatrix[mcx]
KMatrix[m].Multiply,PolynomialMatrix[mrcx]
KMatrix[m].Multiply,PolynomialMatrix[mrx]
KMatrix[m].Multiply,PolynomialMatrix[mx]
KMatrix[m].Multiply,PolynomialMatrix[vrx]
KMatrix[m].Multiply,Polynomial[1]
KMatrix[m].Multiply,VariableMatrix[mrcx]
KMatrix[m].Multiply,VariableMatrix[mx]
KMatrix[m].Multiply,VariableVector[1]
KMatrix[m].Multiply,VariableVector[vrx]
KMatrix[m].Multiply,VariableVector[vx]
KMatrix[m].Multiply,float64
KMatrix[m].Plus,*mat.Dense[mrcx]
KMatrix[m].Plus,Dense[mrc]
KMatrix[m].Plus,Dense[mrcx]
KMatrix[m].Plus,KMatrix[mrc]
KMatrix[m].Plus,KMatrix[mrcx]
KMatrix[m].Plus,K[1]
KMatrix[m].Plus,MonomialMatrix[mrc]
KMatrix[m].Plus,MonomialMatrix[mrcx]
KMatrix[m].Plus,PolynomialMatrix[mrc]
KMatrix[m].Plus,PolynomialMatrix[mrcx]
KMatrix[m].Plus,VariableMatrix[mrc]
KMatrix[m].Plus,VariableMatrix[mrcx]
KMatrix[m].Plus,Variable[1]
KMatrix[m].Plus,float64
KMatrix[m].Power,int
KMatrix[m].Substitute,var,K[1]
KMatrix[m].Substitute,var,Monomial[1]
KMatrix[m].Substitute,var,Polynomial[1]
KMatrix[m].Substitute,var,var
KMatrix[m].SubstituteAccordingTo,map
KMatrix[m].ToDense
KMatrix[m].ToMonomialMatrix
KMatrix[m].ToPolynomialMatrix
KMatrix[m].Transpose
KMatrix[r].AsSimplifiedExpression
KMatrix[r].At,int,int
KMatrix[r].Comparison,Dense[rrc],ConstrSense[m]
KMatrix[r].Comparison,KMatrix[rrc],ConstrSense[m]
KMatrix[r].Comparison,MonomialMatrix[rrc],ConstrSense[m]
KMatrix[r].Comparison,PolynomialMatrix[rrc],ConstrSense[m]
KMatrix[r].Comparison,VariableMatrix[rrc],ConstrSense[m]
KMatrix[r].DerivativeWrt,var
KMatrix[r].Eq,Dense[rrc]
KMatrix[r].Eq,KMatrix[rrc]
KMatrix[r].Eq,MonomialMatrix[rrc]
KMatrix[r].Eq,PolynomialMatrix[rrc]
KMatrix[r].Eq,VariableMatrix[rrc]
KMatrix[r].GreaterEq,Dense[rrc]
KMatrix[r].GreaterEq,KMatrix[rrc]
KMatrix[r].GreaterEq,MonomialMatrix[rrc]
KMatrix[r].GreaterEq,PolynomialMatrix[rrc]
KMatrix[r].GreaterEq,VariableMatrix[rrc]
KMatrix[r].LessEq,Dense[rrc]
KMatrix[r].LessEq,KMatrix[rrc]
KMatrix[r].LessEq,MonomialMatrix[rrc]
KMatrix[r].LessEq,PolynomialMatrix[rrc]
KMatrix[r].LessEq,VariableMatrix[rrc]
KMatrix[r].Minus,KMatrix[rrc]
KMatrix[r].Minus,KVector[1]
KMatrix[r].Minus,K[1]
KMatrix[r].Minus,PolynomialMatrix[rrc]
KMatrix[r].Minus,VecDense[1]
KMatrix[r].Multiply,K[1]
KMatrix[r].Multiply,MonomialMatrix[vx]
KMatrix[r].Multiply,PolynomialMatrix[mcx]
KMatrix[r].Multiply,PolynomialMatrix[vx]
KMatrix[r].Multiply,Polynomial[1]
KMatrix[r].Multiply,VariableVector[1]
KMatrix[r].Multiply,VariableVector[vx]
KMatrix[r].Plus,KMatrix[rrc]
KMatrix[r].Plus,K[1]
KMatrix[r].Plus,MonomialMatrix[rrc]
KMatrix[r].Plus,PolynomialMatrix[rrc]
KMatrix[r].Plus,Variable[1]
KMatrix[r].Substitute,var,K[1]
KMatrix[r].Substitute,var,Monomial[1]
KMatrix[r].Substitute,var,Polynomial[1]
KMatrix[r].Substitute,var,var
KMatrix[r].SubstituteAccordingTo,map
KMatrix[r].ToDense
KMatrix[r].ToMonomialMatrix
KMatrix[r].ToPolynomialMatrix
KMatrix[r].Transpose
KMatrix[v].AsSimplifiedExpression
KMatrix[v].At,int,int
KMatrix[v].Comparison,Dense[vrc],ConstrSense[m]
KMatrix[v].Comparison,KMatrix[vrc],ConstrSense[m]
KMatrix[v].Comparison,MonomialMatrix[vrc],ConstrSense[m]
KMatrix[v].Comparison,PolynomialMatrix[vrc],ConstrSense[m]
KMatrix[v].Comparison,VariableMatrix[vrc],ConstrSense[m]
KMatrix[v].DerivativeWrt,var
KMatrix[v].Eq,Dense[vrc]
KMatrix[v].Eq,KMatrix[vrc]
KMatrix[v].Eq,MonomialMatrix[vrc]
KMatrix[v].Eq,PolynomialMatrix[vrc]
KMatrix[v].Eq,VariableMatrix[vrc]
KMatrix[v].GreaterEq,Dense[vrc]
KMatrix[v].GreaterEq,KMatrix[vrc]
KMatrix[v].GreaterEq,MonomialMatrix[vrc]
KMatrix[v].GreaterEq,PolynomialMatrix[vrc]
KMatrix[v].GreaterEq,VariableMatrix[vrc]
KMatrix[v].LessEq,Dense[vrc]
KMatrix[v].LessEq,KMatrix[vrc]
KMatrix[v].LessEq,MonomialMatrix[vrc]
KMatrix[v].LessEq,PolynomialMatrix[vrc]
KMatrix[v].LessEq,VariableMatrix[vrc]
KMatrix[v].Minus,Dense[vrc]
KMatrix[v].Minus,KMatrix[vrc]
KMatrix[v].Minus,KVector[1]
KMatrix[v].Minus,K[1]
KMatrix[v].Minus,MonomialMatrix[vrc]
KMatrix[v].Minus,VariableMatrix[vrc]
KMatrix[v].Minus,VecDense[1]
KMatrix[v].Multiply,KMatrix[rx]
KMatrix[v].Multiply,K[1]
KMatrix[v].Multiply,MonomialMatrix[rx]
KMatrix[v].Multiply,PolynomialMatrix[rx]
KMatrix[v].Multiply,Polynomial[1]
KMatrix[v].Multiply,VariableMatrix[rx]
KMatrix[v].Multiply,VariableVector[1]
KMatrix[v].Plus,Dense[vrc]
KMatrix[v].Plus,KMatrix[vrc]
KMatrix[v].Plus,K[1]
KMatrix[v].Plus,MonomialMatrix[vrc]
KMatrix[v].Plus,PolynomialMatrix[vrc]
KMatrix[v].Plus,VariableMatrix[vrc]
KMatrix[v].Plus,Variable[1]
KMatrix[v].Substitute,var,K[1]
KMatrix[v].Substitute,var,Monomial[1]
KMatrix[v].Substitute,var,Polynomial[1]
KMatrix[v].Substitute,var,var
KMatrix[v].SubstituteAccordingTo,map
KMatrix[v].ToDense
KMatrix[v].ToMonomialMatrix
KMatrix[v].ToPolynomialMatrix
KMatrix[v].Transpose
KVector[1].AsSimplifiedExpression
KVector[1].At,int,int
KVector[1].AtVec,int
KVector[1].Comparison,KVector[1],ConstrSense[m]
KVector[1].Comparison,K[1],ConstrSense[m]
KVector[1].Comparison,MonomialVector[1],ConstrSense[m]
KVector[1].Comparison,PolynomialVector[1],ConstrSense[m]
KVector[1].Comparison,VariableVector[1],ConstrSense[m]
KVector[1].Comparison,VecDense[1],ConstrSense[m]
KVector[1].Comparison,float64,ConstrSense[m]
KVector[1].DerivativeWrt,var
KVector[1].Eq,KVector[1]
KVector[1].Eq,K[1]
KVector[1].Eq,MonomialVector[1]
KVector[1].Eq,PolynomialVector[1]
KVector[1].Eq,VariableVector[1]
KVector[1].Eq,VecDense[1]
KVector[1].Eq,float64
KVector[1].GreaterEq,KVector[1]
KVector[1].GreaterEq,K[1]
KVector[1].GreaterEq,MonomialVector[1]
KVector[1].GreaterEq,PolynomialVector[1]
KVector[1].GreaterEq,VariableVector[1]
KVector[1].GreaterEq,VecDense[1]
KVector[1].GreaterEq,float64
KVector[1].LessEq,KVector[1]
KVector[1].LessEq,K[1]
KVector[1].LessEq,MonomialVector[1]
KVector[1].LessEq,PolynomialVector[1]
KVector[1].LessEq,VariableVector[1]
KVector[1].LessEq,VecDense[1]
KVector[1].LessEq,float64
KVector[1].Minus,KVector[1]
KVector[1].Minus,KVector[v]
KVector[1].Minus,K[1]
KVector[1].Minus,MonomialVector[1]
KVector[1].Minus,MonomialVector[v]
KVector[1].Minus,Monomial[1]
KVector[1].Minus,PolynomialVector[1]
KVector[1].Minus,PolynomialVector[v]
KVector[1].Minus,Polynomial[1]
KVector[1].Minus,VariableVector[1]
KVector[1].Minus,VariableVector[v]
KVector[1].Minus,Variable[1]
KVector[1].Minus,VecDense[v]
KVector[1].Minus,float64
KVector[1].Multiply,KVector[1]
KVector[1].Multiply,KVector[v]
KVector[1].Multiply,K[1]
KVector[1].Multiply,Monomial[1]
KVector[1].Multiply,Polynomial[1]
KVector[1].Multiply,VariableVector[1]
KVector[1].Multiply,VariableVector[v]
KVector[1].Multiply,Variable[1]
KVector[1].Multiply,VecDense[1]
KVector[1].Multiply,VecDense[v]
KVector[1].Multiply,float64
KVector[1].Plus,KVector[1]
KVector[1].Plus,KVector[v]
KVector[1].Plus,K[1]
KVector[1].Plus,MonomialVector[1]
KVector[1].Plus,MonomialVector[v]
KVector[1].Plus,Monomial[1]
KVector[1].Plus,PolynomialVector[1]
KVector[1].Plus,PolynomialVector[v]
KVector[1].Plus,Polynomial[1]
KVector[1].Plus,VariableVector[1]
KVector[1].Plus,VariableVector[v]
KVector[1].Plus,Variable[1]
KVector[1].Plus,VecDense[1]
KVector[1].Plus,VecDense[v]
KVector[1].Plus,float64
KVector[1].Power,int
KVector[1].Substitute,var,K[1]
KVector[1].Substitute,var,Monomial[1]
KVector[1].Substitute,var,Polynomial[1]
KVector[1].Substitute,var,var
KVector[1].SubstituteAccordingTo,map
KVector[1].ToMonomialVector
KVector[1].ToPolynomialVector
KVector[1].ToVecDense
KVector[1].Transpose
KVector[v].AsSimplifiedExpression
KVector[v].At,int,int
KVector[v].AtVec,int
KVector[v].Comparison,*mat.VecDense[vrc],ConstrSense[m]
KVector[v].Comparison,KVector[vrc],ConstrSense[m]
KVector[v].Comparison,MonomialVector[vrc],ConstrSense[m]
KVector[v].Comparison,PolynomialVector[vrc],ConstrSense[m]
KVector[v].Comparison,VariableVector[vrc],ConstrSense[m]
KVector[v].Comparison,VecDense[vrc],ConstrSense[m]
KVector[v].Comparison,float64,ConstrSense[m]
KVector[v].Comparison,int,ConstrSense[m]
KVector[v].DerivativeWrt,var
KVector[v].Eq,*mat.VecDense[vrc]
KVector[v].Eq,KVector[vrc]
KVector[v].Eq,MonomialVector[vrc]
KVector[v].Eq,PolynomialVector[vrc]
KVector[v].Eq,VariableVector[vrc]
KVector[v].Eq,VecDense[vrc]
KVector[v].Eq,float64
KVector[v].Eq,int
KVector[v].GreaterEq,*mat.VecDense[vrc]
KVector[v].GreaterEq,KVector[vrc]
KVector[v].GreaterEq,MonomialVector[vrc]
KVector[v].GreaterEq,PolynomialVector[vrc]
KVector[v].GreaterEq,VariableVector[vrc]
KVector[v].GreaterEq,VecDense[vrc]
KVector[v].GreaterEq,float64
KVector[v].GreaterEq,int
KVector[v].LessEq,*mat.VecDense[vrc]
KVector[v].LessEq,KVector[vrc]
KVector[v].LessEq,MonomialVector[vrc]
KVector[v].LessEq,PolynomialVector[vrc]
KVector[v].LessEq,VariableVector[vrc]
KVector[v].LessEq,VecDense[vrc]
KVector[v].LessEq,float64
KVector[v].LessEq,int
KVector[v].Minus,*mat.VecDense[vrc]
KVector[v].Minus,KVector[1]
KVector[v].Minus,KVector[vrc]
KVector[v].Minus,K[1]
KVector[v].Minus,MonomialVector[1]
KVector[v].Minus,MonomialVector[vrc]
KVector[v].Minus,Monomial[1]
KVector[v].Minus,PolynomialVector[1]
KVector[v].Minus,PolynomialVector[vrc]
KVector[v].Minus,Polynomial[1]
KVector[v].Minus,VariableVector[1]
KVector[v].Minus,VariableVector[vrc]
KVector[v].Minus,Variable[1]
KVector[v].Minus,VecDense[1]
KVector[v].Minus,VecDense[vrc]
KVector[v].Minus,float64
KVector[v].Multiply,KVector[1]
KVector[v].Multiply,K[1]
KVector[v].Multiply,Monomial[1]
KVector[v].Multiply,Polynomial[1]
KVector[v].Multiply,VariableVector[1]
KVector[v].Multiply,Variable[1]
KVector[v].Multiply,VecDense[1]
KVector[v].Multiply,float64
KVector[v].Plus,*mat.VecDense[vrc]
KVector[v].Plus,KVector[vrc]
KVector[v].Plus,K[1]
KVector[v].Plus,MonomialVector[vrc]
KVector[v].Plus,Monomial[1]
KVector[v].Plus,PolynomialVector[vrc]
KVector[v].Plus,Polynomial[1]
KVector[v].Plus,VariableVector[vrc]
KVector[v].Plus,Variable[1]
KVector[v].Plus,VecDense[vrc]
KVector[v].Plus,float64
KVector[v].Substitute,var,K[1]
KVector[v].Substitute,var,Monomial[1]
KVector[v].Substitute,var,Polynomial[1]
KVector[v].Substitute,var,var
KVector[v].SubstituteAccordingTo,map
KVector[v].ToMonomialVector
KVector[v].ToPolynomialVector
KVector[v].ToVecDense
KVector[v].Transpose
K[1].AsSimplifiedExpression
K[1].At,int,int
K[1].Comparison,*mat.VecDense[1],ConstrSense[m]
K[1].Comparison,KVector[1],ConstrSense[m]
K[1].Comparison,K[1],ConstrSense[m]
K[1].Comparison,Monomial[1],ConstrSense[m]
K[1].Comparison,Polynomial[1],ConstrSense[m]
K[1].Comparison,VariableVector[1],ConstrSense[m]
K[1].Comparison,Variable[1],ConstrSense[m]
K[1].Comparison,VecDense[1],ConstrSense[m]
K[1].Comparison,float64,ConstrSense[m]
K[1].DerivativeWrt,var
K[1].Eq,*mat.VecDense[1]
K[1].Eq,KVector[1]
K[1].Eq,K[1]
K[1].Eq,Monomial[1]
K[1].Eq,Polynomial[1]
K[1].Eq,VariableVector[1]
K[1].Eq,Variable[1]
K[1].Eq,VecDense[1]
K[1].Eq,float64
K[1].GreaterEq,*mat.VecDense[1]
K[1].GreaterEq,KVector[1]
K[1].GreaterEq,K[1]
K[1].GreaterEq,Monomial[1]
K[1].GreaterEq,Polynomial[1]
K[1].GreaterEq,VariableVector[1]
K[1].GreaterEq,Variable[1]
K[1].GreaterEq,VecDense[1]
K[1].GreaterEq,float64
K[1].LessEq,*mat.VecDense[1]
K[1].LessEq,KVector[1]
K[1].LessEq,K[1]
K[1].LessEq,Monomial[1]
K[1].LessEq,Polynomial[1]
K[1].LessEq,VariableVector[1]
K[1].LessEq,Variable[1]
K[1].LessEq,VecDense[1]
K[1].LessEq,float64
K[1].Minus,*mat.Dense[m]
K[1].Minus,*mat.VecDense[1]
K[1].Minus,*mat.VecDense[v]
K[1].Minus,Dense[1]
K[1].Minus,Dense[m]
K[1].Minus,Dense[r]
K[1].Minus,Dense[v]
K[1].Minus,KMatrix[1]
K[1].Minus,KMatrix[m]
K[1].Minus,KMatrix[r]
K[1].Minus,KMatrix[v]
K[1].Minus,KVector[1]
K[1].Minus,KVector[v]
K[1].Minus,K[1]
K[1].Minus,MonomialMatrix[m]
K[1].Minus,MonomialMatrix[r]
K[1].Minus,MonomialMatrix[v]
K[1].Minus,MonomialVector[1]
K[1].Minus,MonomialVector[v]
K[1].Minus,Monomial[1]
K[1].Minus,PolynomialMatrix[m]
K[1].Minus,PolynomialMatrix[r]
K[1].Minus,PolynomialMatrix[v]
K[1].Minus,PolynomialVector[1]
K[1].Minus,PolynomialVector[v]
K[1].Minus,Polynomial[1]
K[1].Minus,VariableMatrix[m]
K[1].Minus,VariableMatrix[r]
K[1].Minus,VariableMatrix[v]
K[1].Minus,VariableVector[1]
K[1].Minus,VariableVector[v]
K[1].Minus,Variable[1]
K[1].Minus,VecDense[1]
K[1].Minus,VecDense[v]
K[1].Minus,float64
K[1].Multiply,K[1]
K[1].Multiply,Monomial[1]
K[1].Multiply,Polynomial[1]
K[1].Multiply,Variable[1]
K[1].Multiply,float64
K[1].Multiply,int
K[1].Plus,*mat.Dense[m]
K[1].Plus,*mat.VecDense[1]
K[1].Plus,*mat.VecDense[v]
K[1].Plus,Dense[1]
K[1].Plus,Dense[m]
K[1].Plus,Dense[r]
K[1].Plus,Dense[v]
K[1].Plus,KMatrix[1]
K[1].Plus,KMatrix[m]
K[1].Plus,KMatrix[r]
K[1].Plus,KMatrix[v]
K[1].Plus,KVector[1]
K[1].Plus,KVector[v]
K[1].Plus,K[1]
K[1].Plus,MonomialMatrix[m]
K[1].Plus,MonomialMatrix[r]
K[1].Plus,MonomialMatrix[v]
K[1].Plus,MonomialVector[1]
K[1].Plus,MonomialVector[v]
K[1].Plus,Monomial[1]
K[1].Plus,PolynomialMatrix[m]
K[1].Plus,PolynomialMatrix[r]
K[1].Plus,PolynomialMatrix[v]
K[1].Plus,PolynomialVector[1]
K[1].Plus,PolynomialVector[v]
K[1].Plus,Polynomial[1]
K[1].Plus,VariableMatrix[m]
K[1].Plus,VariableMatrix[r]
K[1].Plus,VariableMatrix[v]
K[1].Plus,VariableVector[1]
K[1].Plus,VariableVector[v]
K[1].Plus,Variable[1]
K[1].Plus,VecDense[1]
K[1].Plus,VecDense[v]
K[1].Plus,float64
K[1].Plus,int
K[1].Power,int
K[1].Substitute,var,K[1]
K[1].Substitute,var,Monomial[1]
K[1].Substitute,var,Polynomial[1]
K[1].Substitute,var,var
K[1].SubstituteAccordingTo,map
K[1].ToMonomial
K[1].ToPolynomial
K[1].Transpose
MatrixConstraint(KMatrix[m],KMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[m],KMatrix[m]).At,int,int
MatrixConstraint(KMatrix[m],KMatrix[m]).ConstrSense
MatrixConstraint(KMatrix[m],KMatrix[m]).Left
MatrixConstraint(KMatrix[m],KMatrix[m]).Right
MatrixConstraint(KMatrix[m],KMatrix[m]).Substitute,var,K[1]
MatrixConstraint(KMatrix[m],KMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(KMatrix[m],KMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(KMatrix[m],KMatrix[m]).Substitute,var,var
MatrixConstraint(KMatrix[m],KMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(KMatrix[m],MonomialMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[m],MonomialMatrix[m]).At,int,int
MatrixConstraint(KMatrix[m],MonomialMatrix[m]).ConstrSense
MatrixConstraint(KMatrix[m],MonomialMatrix[m]).Left
MatrixConstraint(KMatrix[m],MonomialMatrix[m]).Right
MatrixConstraint(KMatrix[m],MonomialMatrix[m]).Substitute,var,var
MatrixConstraint(KMatrix[m],MonomialMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).At,int,int
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).ConstrSense
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).Left
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).Right
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).Substitute,var,K[1]
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).Substitute,var,var
MatrixConstraint(KMatrix[m],PolynomialMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(KMatrix[m],VariableMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[m],VariableMatrix[m]).At,int,int
MatrixConstraint(KMatrix[m],VariableMatrix[m]).ConstrSense
MatrixConstraint(KMatrix[m],VariableMatrix[m]).Left
MatrixConstraint(KMatrix[m],VariableMatrix[m]).Right
MatrixConstraint(KMatrix[m],VariableMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(KMatrix[m],VariableMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(KMatrix[m],VariableMatrix[m]).Substitute,var,var
MatrixConstraint(KMatrix[m],VariableMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(KMatrix[r],KMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[r],KMatrix[r]).At,int,int
MatrixConstraint(KMatrix[r],KMatrix[r]).ConstrSense
MatrixConstraint(KMatrix[r],KMatrix[r]).Left
MatrixConstraint(KMatrix[r],KMatrix[r]).Right
MatrixConstraint(KMatrix[r],KMatrix[r]).SubstituteAccordingTo,map
MatrixConstraint(KMatrix[r],MonomialMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[r],PolynomialMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[r],VariableMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[v],KMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[v],KMatrix[v]).At,int,int
MatrixConstraint(KMatrix[v],KMatrix[v]).Substitute,var,Monomial[1]
MatrixConstraint(KMatrix[v],KMatrix[v]).Substitute,var,Polynomial[1]
MatrixConstraint(KMatrix[v],KMatrix[v]).SubstituteAccordingTo,map
MatrixConstraint(KMatrix[v],MonomialMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[v],PolynomialMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(KMatrix[v],PolynomialMatrix[v]).At,int,int
MatrixConstraint(KMatrix[v],VariableMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).At,int,int
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).ConstrSense
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).Left
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).Right
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).Substitute,var,K[1]
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).Substitute,var,var
MatrixConstraint(MonomialMatrix[m],KMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).At,int,int
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).ConstrSense
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).Left
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).Right
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).Substitute,var,K[1]
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).Substitute,var,var
MatrixConstraint(MonomialMatrix[m],MonomialMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).At,int,int
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).ConstrSense
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).Left
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).Right
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).Substitute,var,K[1]
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).Substitute,var,var
MatrixConstraint(MonomialMatrix[m],PolynomialMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).At,int,int
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).ConstrSense
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).Left
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).Right
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).Substitute,var,var
MatrixConstraint(MonomialMatrix[m],VariableMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(MonomialMatrix[r],KMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[r],KMatrix[r]).At,int,int
MatrixConstraint(MonomialMatrix[r],MonomialMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[r],MonomialMatrix[r]).At,int,int
MatrixConstraint(MonomialMatrix[r],MonomialMatrix[r]).ConstrSense
MatrixConstraint(MonomialMatrix[r],MonomialMatrix[r]).Left
MatrixConstraint(MonomialMatrix[r],MonomialMatrix[r]).Right
MatrixConstraint(MonomialMatrix[r],MonomialMatrix[r]).SubstituteAccordingTo,map
MatrixConstraint(MonomialMatrix[r],PolynomialMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[r],VariableMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).At,int,int
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).ConstrSense
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).Left
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).Substitute,var,K[1]
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).Substitute,var,Monomial[1]
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).Substitute,var,Polynomial[1]
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).Substitute,var,var
MatrixConstraint(MonomialMatrix[v],KMatrix[v]).SubstituteAccordingTo,map
MatrixConstraint(MonomialMatrix[v],MonomialMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[v],MonomialMatrix[v]).At,int,int
MatrixConstraint(MonomialMatrix[v],PolynomialMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(MonomialMatrix[v],VariableMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).At,int,int
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).ConstrSense
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).Left
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).Right
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).Substitute,var,K[1]
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).Substitute,var,var
MatrixConstraint(PolynomialMatrix[m],KMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(PolynomialMatrix[r],KMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(PolynomialMatrix[r],KMatrix[r]).At,int,int
MatrixConstraint(PolynomialMatrix[r],KMatrix[r]).SubstituteAccordingTo,map
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).At,int,int
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).ConstrSense
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).Left
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).Right
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).Substitute,var,K[1]
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).Substitute,var,Monomial[1]
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).Substitute,var,Polynomial[1]
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).Substitute,var,var
MatrixConstraint(PolynomialMatrix[v],KMatrix[v]).SubstituteAccordingTo,map
MatrixConstraint(VariableMatrix[m],KMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[m],KMatrix[m]).At,int,int
MatrixConstraint(VariableMatrix[m],KMatrix[m]).ConstrSense
MatrixConstraint(VariableMatrix[m],KMatrix[m]).Left
MatrixConstraint(VariableMatrix[m],KMatrix[m]).Right
MatrixConstraint(VariableMatrix[m],KMatrix[m]).Substitute,var,K[1]
MatrixConstraint(VariableMatrix[m],KMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(VariableMatrix[m],KMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(VariableMatrix[m],KMatrix[m]).Substitute,var,var
MatrixConstraint(VariableMatrix[m],KMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).At,int,int
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).ConstrSense
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).Left
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).Right
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).Substitute,var,K[1]
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).Substitute,var,var
MatrixConstraint(VariableMatrix[m],MonomialMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).At,int,int
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).ConstrSense
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).Left
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).Right
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).Substitute,var,K[1]
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).Substitute,var,var
MatrixConstraint(VariableMatrix[m],PolynomialMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).At,int,int
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).ConstrSense
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).Left
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).Right
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).Substitute,var,Monomial[1]
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).Substitute,var,Polynomial[1]
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).Substitute,var,var
MatrixConstraint(VariableMatrix[m],VariableMatrix[m]).SubstituteAccordingTo,map
MatrixConstraint(VariableMatrix[r],KMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[r],KMatrix[r]).At,int,int
MatrixConstraint(VariableMatrix[r],KMatrix[r]).SubstituteAccordingTo,map
MatrixConstraint(VariableMatrix[r],MonomialMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[r],PolynomialMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[r],VariableMatrix[r]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[r],VariableMatrix[r]).At,int,int
MatrixConstraint(VariableMatrix[r],VariableMatrix[r]).ConstrSense
MatrixConstraint(VariableMatrix[r],VariableMatrix[r]).SubstituteAccordingTo,map
MatrixConstraint(VariableMatrix[v],KMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[v],KMatrix[v]).At,int,int
MatrixConstraint(VariableMatrix[v],PolynomialMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[v],VariableMatrix[v]).AsSimplifiedConstraint
MatrixConstraint(VariableMatrix[v],VariableMatrix[v]).At,int,int
MonomialMatrix[1].AsSimplifiedExpression
MonomialMatrix[1].At,int,int
MonomialMatrix[1].DerivativeWrt,var
MonomialMatrix[1].Power,int
MonomialMatrix[1].Substitute,var,K[1]
MonomialMatrix[1].Substitute,var,Monomial[1]
MonomialMatrix[1].Substitute,var,Polynomial[1]
MonomialMatrix[1].Substitute,var,var
MonomialMatrix[1].SubstituteAccordingTo,map
MonomialMatrix[1].ToPolynomialMatrix
MonomialMatrix[1].Transpose
MonomialMatrix[m].AsSimplifiedExpression
MonomialMatrix[m].At,int,int
MonomialMatrix[m].Comparison,*mat.Dense[mrc],ConstrSense[m]
MonomialMatrix[m].Comparison,*mat.Dense[mrcx],ConstrSense[m]
MonomialMatrix[m].Comparison,Dense[mrc],ConstrSense[m]
MonomialMatrix[m].Comparison,Dense[mrcx],ConstrSense[m]
MonomialMatrix[m].Comparison,KMatrix[mrc],ConstrSense[m]
MonomialMatrix[m].Comparison,KMatrix[mrcx],ConstrSense[m]
MonomialMatrix[m].Comparison,MonomialMatrix[mrc],ConstrSense[m]
MonomialMatrix[m].Comparison,MonomialMatrix[mrcx],ConstrSense[m]
MonomialMatrix[m].Comparison,PolynomialMatrix[mrc],ConstrSense[m]
MonomialMatrix[m].Comparison,PolynomialMatrix[mrcx],ConstrSense[m]
MonomialMatrix[m].Comparison,VariableMatrix[mrc],ConstrSense[m]
MonomialMatrix[m].Comparison,VariableMatrix[mrcx],ConstrSense[m]
MonomialMatrix[m].Comparison,float64,ConstrSense[m]
MonomialMatrix[m].DerivativeWrt,var
MonomialMatrix[m].Eq,*mat.Dense[mrc]
MonomialMatrix[m].Eq,*mat.Dense[mrcx]
MonomialMatrix[m].Eq,Dense[mrc]
MonomialMatrix[m].Eq,Dense[mrcx]
MonomialMatrix[m].Eq,KMatrix[mrc]
MonomialMatrix[m].Eq,KMatrix[mrcx]
MonomialMatrix[m].Eq,MonomialMatrix[mrc]
MonomialMatrix[m].Eq,MonomialMatrix[mrcx]
MonomialMatrix[m].Eq,PolynomialMatrix[mrc]
MonomialMatrix[m].Eq,PolynomialMatrix[mrcx]
MonomialMatrix[m].Eq,VariableMatrix[mrc]
MonomialMatrix[m].Eq,VariableMatrix[mrcx]
MonomialMatrix[m].Eq,float64
MonomialMatrix[m].GreaterEq,*mat.Dense[mrc]
MonomialMatrix[m].GreaterEq,*mat.Dense[mrcx]
MonomialMatrix[m].GreaterEq,Dense[mrc]
MonomialMatrix[m].GreaterEq,Dense[mrcx]
MonomialMatrix[m].GreaterEq,KMatrix[mrc]
MonomialMatrix[m].GreaterEq,KMatrix[mrcx]
MonomialMatrix[m].GreaterEq,MonomialMatrix[mrc]
MonomialMatrix[m].GreaterEq,MonomialMatrix[mrcx]
MonomialMatrix[m].GreaterEq,PolynomialMatrix[mrc]
MonomialMatrix[m].GreaterEq,PolynomialMatrix[mrcx]
MonomialMatrix[m].GreaterEq,VariableMatrix[mrc]
MonomialMatrix[m].GreaterEq,VariableMatrix[mrcx]
MonomialMatrix[m].GreaterEq,float64
MonomialMatrix[m].LessEq,*mat.Dense[mrc]
MonomialMatrix[m].LessEq,*mat.Dense[mrcx]
MonomialMatrix[m].LessEq,Dense[mrc]
MonomialMatrix[m].LessEq,Dense[mrcx]
MonomialMatrix[m].LessEq,KMatrix[mrc]
MonomialMatrix[m].LessEq,KMatrix[mrcx]
MonomialMatrix[m].LessEq,MonomialMatrix[mrc]
MonomialMatrix[m].LessEq,MonomialMatrix[mrcx]
MonomialMatrix[m].LessEq,PolynomialMatrix[mrc]
MonomialMatrix[m].LessEq,PolynomialMatrix[mrcx]
MonomialMatrix[m].LessEq,VariableMatrix[mrc]
MonomialMatrix[m].LessEq,VariableMatrix[mrcx]
MonomialMatrix[m].LessEq,float64
MonomialMatrix[m].Minus,*mat.Dense[mrcx]
MonomialMatrix[m].Minus,Dense[mrc]
MonomialMatrix[m].Minus,Dense[mrcx]
MonomialMatrix[m].Minus,KMatrix[mrc]
MonomialMatrix[m].Minus,KMatrix[mrcx]
MonomialMatrix[m].Minus,KVector[1]
MonomialMatrix[m].Minus,K[1]
MonomialMatrix[m].Minus,MonomialMatrix[mrc]
MonomialMatrix[m].Minus,MonomialMatrix[mrcx]
MonomialMatrix[m].Minus,MonomialVector[1]
MonomialMatrix[m].Minus,Monomial[1]
MonomialMatrix[m].Minus,PolynomialMatrix[mrc]
MonomialMatrix[m].Minus,PolynomialMatrix[mrcx]
MonomialMatrix[m].Minus,PolynomialVector[1]
MonomialMatrix[m].Minus,Polynomial[1]
MonomialMatrix[m].Minus,VariableMatrix[mrc]
MonomialMatrix[m].Minus,VariableMatrix[mrcx]
MonomialMatrix[m].Minus,VariableVector[1]
MonomialMatrix[m].Minus,Variable[1]
MonomialMatrix[m].Minus,float64
MonomialMatrix[m].Multiply,KMatrix[mrcx]
MonomialMatrix[m].Multiply,KMatrix[mrx]
MonomialMatrix[m].Multiply,KMatrix[mx]
MonomialMatrix[m].Multiply,KMatrix[vrx]
MonomialMatrix[m].Multiply,K[1]
MonomialMatrix[m].Multiply,MonomialMatrix[mrcx]
MonomialMatrix[m].Multiply,MonomialMatrix[mx]
MonomialMatrix[m].Multiply,PolynomialMatrix[mcx]
MonomialMatrix[m].Multiply,PolynomialMatrix[mrcx]
MonomialMatrix[m].Multiply,PolynomialMatrix[mrx]
MonomialMatrix[m].Multiply,PolynomialMatrix[mx]
MonomialMatrix[m].Multiply,PolynomialMatrix[vrx]
MonomialMatrix[m].Multiply,VariableMatrix[mrcx]
MonomialMatrix[m].Multiply,VariableMatrix[mrx]
MonomialMatrix[m].Multiply,VariableMatrix[mx]
MonomialMatrix[m].Multiply,VariableMatrix[vrx]
MonomialMatrix[m].Multiply,VariableVector[vrx]
MonomialMatrix[m].Multiply,VariableVector[vx]
MonomialMatrix[m].Multiply,float64
MonomialMatrix[m].Plus,KMatrix[mrc]
MonomialMatrix[m].Plus,KMatrix[mrcx]
MonomialMatrix[m].Plus,K[1]
MonomialMatrix[m].Plus,MonomialMatrix[mrc]
MonomialMatrix[m].Plus,MonomialMatrix[mrcx]
MonomialMatrix[m].Plus,Monomial[1]
MonomialMatrix[m].Plus,PolynomialMatrix[mrc]
MonomialMatrix[m].Plus,PolynomialMatrix[mrcx]
MonomialMatrix[m].Plus,Polynomial[1]
MonomialMatrix[m].Plus,VariableMatrix[mrc]
MonomialMatrix[m].Plus,VariableMatrix[mrcx]
MonomialMatrix[m].Plus,Variable[1]
MonomialMatrix[m].Plus,float64
MonomialMatrix[m].Power,int
MonomialMatrix[m].Substitute,var,K[1]
MonomialMatrix[m].Substitute,var,Monomial[1]
MonomialMatrix[m].Substitute,var,Polynomial[1]
MonomialMatrix[m].Substitute,var,var
MonomialMatrix[m].SubstituteAccordingTo,map
MonomialMatrix[m].ToPolynomialMatrix
MonomialMatrix[m].Transpose
MonomialMatrix[r].AsSimplifiedExpression
MonomialMatrix[r].At,int,int
MonomialMatrix[r].Comparison,Dense[rrc],ConstrSense[m]
MonomialMatrix[r].Comparison,KMatrix[rrc],ConstrSense[m]
MonomialMatrix[r].Comparison,MonomialMatrix[rrc],ConstrSense[m]
MonomialMatrix[r].Comparison,PolynomialMatrix[rrc],ConstrSense[m]
MonomialMatrix[r].Comparison,VariableMatrix[rrc],ConstrSense[m]
MonomialMatrix[r].DerivativeWrt,var
MonomialMatrix[r].Eq,Dense[rrc]
MonomialMatrix[r].Eq,KMatrix[rrc]
MonomialMatrix[r].Eq,MonomialMatrix[rrc]
MonomialMatrix[r].Eq,PolynomialMatrix[rrc]
MonomialMatrix[r].Eq,VariableMatrix[rrc]
MonomialMatrix[r].GreaterEq,Dense[rrc]
MonomialMatrix[r].GreaterEq,KMatrix[rrc]
MonomialMatrix[r].GreaterEq,MonomialMatrix[rrc]
MonomialMatrix[r].GreaterEq,PolynomialMatrix[rrc]
MonomialMatrix[r].GreaterEq,VariableMatrix[rrc]
MonomialMatrix[r].LessEq,Dense[rrc]
MonomialMatrix[r].LessEq,KMatrix[rrc]
MonomialMatrix[r].LessEq,MonomialMatrix[rrc]
MonomialMatrix[r].LessEq,PolynomialMatrix[rrc]
MonomialMatrix[r].LessEq,VariableMatrix[rrc]
MonomialMatrix[r].Minus,KVector[1]
MonomialMatrix[r].Minus,K[1]
MonomialMatrix[r].Minus,MonomialMatrix[rrc]
MonomialMatrix[r].Minus,MonomialVector[1]
MonomialMatrix[r].Minus,Monomial[1]
MonomialMatrix[r].Minus,PolynomialMatrix[rrc]
MonomialMatrix[r].Minus,PolynomialVector[1]
MonomialMatrix[r].Minus,Polynomial[1]
MonomialMatrix[r].Minus,VariableVector[1]
MonomialMatrix[r].Minus,Variable[1]
MonomialMatrix[r].Minus,VecDense[1]
MonomialMatrix[r].Multiply,KMatrix[mcx]
MonomialMatrix[r].Multiply,KMatrix[vx]
MonomialMatrix[r].Multiply,K[1]
MonomialMatrix[r].Multiply,PolynomialMatrix[mcx]
MonomialMatrix[r].Multiply,PolynomialMatrix[vx]
MonomialMatrix[r].Multiply,VariableMatrix[vx]
MonomialMatrix[r].Multiply,VariableVector[vx]
MonomialMatrix[r].Plus,K[1]
MonomialMatrix[r].Plus,MonomialMatrix[rrc]
MonomialMatrix[r].Plus,Monomial[1]
MonomialMatrix[r].Plus,PolynomialMatrix[rrc]
MonomialMatrix[r].Plus,Polynomial[1]
MonomialMatrix[r].Plus,Variable[1]
MonomialMatrix[r].Substitute,var,K[1]
MonomialMatrix[r].Substitute,var,Monomial[1]
MonomialMatrix[r].Substitute,var,Polynomial[1]
MonomialMatrix[r].Substitute,var,var
MonomialMatrix[r].SubstituteAccordingTo,map
MonomialMatrix[r].ToPolynomialMatrix
MonomialMatrix[r].Transpose
MonomialMatrix[v].AsSimplifiedExpression
MonomialMatrix[v].At,int,int
MonomialMatrix[v].Comparison,Dense[vrc],ConstrSense[m]
MonomialMatrix[v].Comparison,KMatrix[vrc],ConstrSense[m]
MonomialMatrix[v].Comparison,MonomialMatrix[vrc],ConstrSense[m]
MonomialMatrix[v].Comparison,PolynomialMatrix[vrc],ConstrSense[m]
MonomialMatrix[v].Comparison,VariableMatrix[vrc],ConstrSense[m]
MonomialMatrix[v].DerivativeWrt,var
MonomialMatrix[v].Eq,Dense[vrc]
MonomialMatrix[v].Eq,KMatrix[vrc]
MonomialMatrix[v].Eq,MonomialMatrix[vrc]
MonomialMatrix[v].Eq,PolynomialMatrix[vrc]
MonomialMatrix[v].Eq,VariableMatrix[vrc]
MonomialMatrix[v].GreaterEq,Dense[vrc]
MonomialMatrix[v].GreaterEq,KMatrix[vrc]
MonomialMatrix[v].GreaterEq,MonomialMatrix[vrc]
MonomialMatrix[v].GreaterEq,PolynomialMatrix[vrc]
MonomialMatrix[v].GreaterEq,VariableMatrix[vrc]
MonomialMatrix[v].LessEq,Dense[vrc]
MonomialMatrix[v].LessEq,KMatrix[vrc]
MonomialMatrix[v].LessEq,MonomialMatrix[vrc]
MonomialMatrix[v].LessEq,PolynomialMatrix[vrc]
MonomialMatrix[v].LessEq,VariableMatrix[vrc]
MonomialMatrix[v].Minus,Dense[vrc]
MonomialMatrix[v].Minus,KMatrix[vrc]
MonomialMatrix[v].Minus,KVector[1]
MonomialMatrix[v].Minus,K[1]
MonomialMatrix[v].Minus,MonomialMatrix[vrc]
MonomialMatrix[v].Minus,MonomialVector[1]
MonomialMatrix[v].Minus,Monomial[1]
MonomialMatrix[v].Minus,PolynomialVector[1]
MonomialMatrix[v].Minus,Polynomial[1]
MonomialMatrix[v].Minus,VariableMatrix[vrc]
MonomialMatrix[v].Minus,VariableVector[1]
MonomialMatrix[v].Minus,Variable[1]
MonomialMatrix[v].Minus,VecDense[1]
MonomialMatrix[v].Multiply,KMatrix[rx]
MonomialMatrix[v].Multiply,K[1]
MonomialMatrix[v].Multiply,MonomialMatrix[rx]
MonomialMatrix[v].Multiply,PolynomialMatrix[rx]
MonomialMatrix[v].Multiply,VariableMatrix[rx]
MonomialMatrix[v].Multiply,VariableVector[1]
MonomialMatrix[v].Plus,KMatrix[vrc]
MonomialMatrix[v].Plus,K[1]
MonomialMatrix[v].Plus,MonomialMatrix[vrc]
MonomialMatrix[v].Plus,Monomial[1]
MonomialMatrix[v].Plus,PolynomialMatrix[vrc]
MonomialMatrix[v].Plus,Polynomial[1]
MonomialMatrix[v].Plus,VariableMatrix[vrc]
MonomialMatrix[v].Plus,Variable[1]
MonomialMatrix[v].Substitute,var,K[1]
MonomialMatrix[v].Substitute,var,Monomial[1]
MonomialMatrix[v].Substitute,var,Polynomial[1]
MonomialMatrix[v].Substitute,var,var
MonomialMatrix[v].SubstituteAccordingTo,map
MonomialMatrix[v].ToPolynomialMatrix
MonomialMatrix[v].Transpose
MonomialVector[1].AsSimplifiedExpression
MonomialVector[1].At,int,int
MonomialVector[1].AtVec,int
MonomialVector[1].Comparison,KVector[1],ConstrSense[m]
MonomialVector[1].Comparison,K[1],ConstrSense[m]
MonomialVector[1].Comparison,MonomialVector[1],ConstrSense[m]
MonomialVector[1].Comparison,VariableVector[1],ConstrSense[m]
MonomialVector[1].Comparison,float64,ConstrSense[m]
MonomialVector[1].DerivativeWrt,var
MonomialVector[1].Eq,KVector[1]
MonomialVector[1].Eq,K[1]
MonomialVector[1].Eq,MonomialVector[1]
MonomialVector[1].Eq,VariableVector[1]
MonomialVector[1].Eq,float64
MonomialVector[1].GreaterEq,KVector[1]
MonomialVector[1].GreaterEq,K[1]
MonomialVector[1].GreaterEq,MonomialVector[1]
MonomialVector[1].GreaterEq,VariableVector[1]
MonomialVector[1].GreaterEq,float64
MonomialVector[1].LessEq,KVector[1]
MonomialVector[1].LessEq,K[1]
MonomialVector[1].LessEq,MonomialVector[1]
MonomialVector[1].LessEq,VariableVector[1]
MonomialVector[1].LessEq,float64
MonomialVector[1].Minus,KVector[1]
MonomialVector[1].Minus,KVector[v]
MonomialVector[1].Minus,K[1]
MonomialVector[1].Minus,MonomialVector[1]
MonomialVector[1].Minus,MonomialVector[v]
MonomialVector[1].Minus,Monomial[1]
MonomialVector[1].Minus,PolynomialMatrix[v]
MonomialVector[1].Minus,PolynomialVector[1]
MonomialVector[1].Minus,PolynomialVector[v]
MonomialVector[1].Minus,Polynomial[1]
MonomialVector[1].Minus,VariableVector[1]
MonomialVector[1].Minus,VariableVector[v]
MonomialVector[1].Minus,Variable[1]
MonomialVector[1].Minus,float64
MonomialVector[1].Multiply,K[1]
MonomialVector[1].Multiply,Monomial[1]
MonomialVector[1].Multiply,Polynomial[1]
MonomialVector[1].Multiply,Variable[1]
MonomialVector[1].Multiply,float64
MonomialVector[1].Plus,KVector[1]
MonomialVector[1].Plus,KVector[v]
MonomialVector[1].Plus,K[1]
MonomialVector[1].Plus,MonomialVector[1]
MonomialVector[1].Plus,MonomialVector[v]
MonomialVector[1].Plus,Monomial[1]
MonomialVector[1].Plus,PolynomialVector[1]
MonomialVector[1].Plus,PolynomialVector[v]
MonomialVector[1].Plus,Polynomial[1]
MonomialVector[1].Plus,VariableVector[1]
MonomialVector[1].Plus,VariableVector[v]
MonomialVector[1].Plus,Variable[1]
MonomialVector[1].Plus,float64
MonomialVector[1].Power,int
MonomialVector[1].Substitute,var,K[1]
MonomialVector[1].Substitute,var,Monomial[1]
MonomialVector[1].Substitute,var,Polynomial[1]
MonomialVector[1].Substitute,var,var
MonomialVector[1].SubstituteAccordingTo,map
MonomialVector[1].ToPolynomialVector
MonomialVector[1].Transpose
MonomialVector[v].AsSimplifiedExpression
MonomialVector[v].At,int,int
MonomialVector[v].AtVec,int
MonomialVector[v].Comparison,KVector[vrc],ConstrSense[m]
MonomialVector[v].Comparison,MonomialVector[vrc],ConstrSense[m]
MonomialVector[v].Comparison,VariableVector[vrc],ConstrSense[m]
MonomialVector[v].Comparison,float64,ConstrSense[m]
MonomialVector[v].DerivativeWrt,var
MonomialVector[v].Eq,KVector[vrc]
MonomialVector[v].Eq,MonomialVector[vrc]
MonomialVector[v].Eq,VariableVector[vrc]
MonomialVector[v].Eq,float64
MonomialVector[v].GreaterEq,KVector[vrc]
MonomialVector[v].GreaterEq,MonomialVector[vrc]
MonomialVector[v].GreaterEq,VariableVector[vrc]
MonomialVector[v].GreaterEq,float64
MonomialVector[v].LessEq,KVector[vrc]
MonomialVector[v].LessEq,MonomialVector[vrc]
MonomialVector[v].LessEq,VariableVector[vrc]
MonomialVector[v].LessEq,float64
MonomialVector[v].Minus,*mat.VecDense[vrc]
MonomialVector[v].Minus,KVector[1]
MonomialVector[v].Minus,KVector[vrc]
MonomialVector[v].Minus,K[1]
MonomialVector[v].Minus,MonomialVector[1]
MonomialVector[v].Minus,MonomialVector[vrc]
MonomialVector[v].Minus,Monomial[1]
MonomialVector[v].Minus,PolynomialMatrix[vrc]
MonomialVector[v].Minus,PolynomialVector[1]
MonomialVector[v].Minus,PolynomialVector[vrc]
MonomialVector[v].Minus,Polynomial[1]
MonomialVector[v].Minus,VariableVector[1]
MonomialVector[v].Minus,VariableVector[vrc]
MonomialVector[v].Minus,Variable[1]
MonomialVector[v].Minus,VecDense[1]
MonomialVector[v].Minus,VecDense[vrc]
MonomialVector[v].Minus,float64
MonomialVector[v].Multiply,K[1]
MonomialVector[v].Multiply,Monomial[1]
MonomialVector[v].Multiply,Polynomial[1]
MonomialVector[v].Multiply,Variable[1]
MonomialVector[v].Multiply,float64
MonomialVector[v].Plus,KVector[vrc]
MonomialVector[v].Plus,K[1]
MonomialVector[v].Plus,MonomialVector[vrc]
MonomialVector[v].Plus,Monomial[1]
MonomialVector[v].Plus,PolynomialVector[vrc]
MonomialVector[v].Plus,Polynomial[1]
MonomialVector[v].Plus,VariableVector[vrc]
MonomialVector[v].Plus,Variable[1]
MonomialVector[v].Plus,float64
MonomialVector[v].Plus,int
MonomialVector[v].Substitute,var,K[1]
MonomialVector[v].Substitute,var,Monomial[1]
MonomialVector[v].Substitute,var,Polynomial[1]
MonomialVector[v].Substitute,var,var
MonomialVector[v].SubstituteAccordingTo,map
MonomialVector[v].ToPolynomialVector
MonomialVector[v].Transpose
Monomial[1].AsSimplifiedExpression
Monomial[1].At,int,int
Monomial[1].Comparison,K[1],ConstrSense[m]
Monomial[1].Comparison,Monomial[1],ConstrSense[m]
Monomial[1].Comparison,Polynomial[1],ConstrSense[m]
Monomial[1].Comparison,Variable[1],ConstrSense[m]
Monomial[1].Comparison,float64,ConstrSense[m]
Monomial[1].Comparison,int,ConstrSense[m]
Monomial[1].Copy
Monomial[1].DerivativeWrt,var
Monomial[1].Eq,K[1]
Monomial[1].Eq,Monomial[1]
Monomial[1].Eq,Polynomial[1]
Monomial[1].Eq,Variable[1]
Monomial[1].Eq,float64
Monomial[1].Eq,int
Monomial[1].GreaterEq,K[1]
Monomial[1].GreaterEq,Monomial[1]
Monomial[1].GreaterEq,Polynomial[1]
Monomial[1].GreaterEq,Variable[1]
Monomial[1].GreaterEq,float64
Monomial[1].GreaterEq,int
Monomial[1].LessEq,K[1]
Monomial[1].LessEq,Monomial[1]
Monomial[1].LessEq,Polynomial[1]
Monomial[1].LessEq,Variable[1]
Monomial[1].LessEq,float64
Monomial[1].LessEq,int
Monomial[1].Minus,*mat.VecDense[1]
Monomial[1].Minus,KVector[1]
Monomial[1].Minus,K[1]
Monomial[1].Minus,MonomialVector[1]
Monomial[1].Minus,Monomial[1]
Monomial[1].Minus,PolynomialVector[1]
Monomial[1].Minus,Polynomial[1]
Monomial[1].Minus,VariableVector[1]
Monomial[1].Minus,Variable[1]
Monomial[1].Minus,VecDense[1]
Monomial[1].Minus,float64
Monomial[1].Multiply,K[1]
Monomial[1].Multiply,Monomial[1]
Monomial[1].Multiply,Polynomial[1]
Monomial[1].Multiply,Variable[1]
Monomial[1].Multiply,float64
Monomial[1].Multiply,int
Monomial[1].Plus,K[1]
Monomial[1].Plus,Monomial[1]
Monomial[1].Plus,Polynomial[1]
Monomial[1].Plus,Variable[1]
Monomial[1].Plus,float64
Monomial[1].Power,int
Monomial[1].Substitute,var,K[1]
Monomial[1].Substitute,var,Monomial[1]
Monomial[1].Substitute,var,Polynomial[1]
Monomial[1].Substitute,var,var
Monomial[1].SubstituteAccordingTo,map
Monomial[1].ToPolynomial
Monomial[1].Transpose
PolynomialMatrix[1].AsSimplifiedExpression
PolynomialMatrix[1].At,int,int
PolynomialMatrix[1].DerivativeWrt,var
PolynomialMatrix[1].Power,int
PolynomialMatrix[1].Simplify
PolynomialMatrix[1].Substitute,var,K[1]
PolynomialMatrix[1].Substitute,var,Monomial[1]
PolynomialMatrix[1].Substitute,var,Polynomial[1]
PolynomialMatrix[1].Substitute,var,var
PolynomialMatrix[1].SubstituteAccordingTo,map
PolynomialMatrix[1].Transpose
PolynomialMatrix[m].AsSimplifiedExpression
PolynomialMatrix[m].At,int,int
PolynomialMatrix[m].Comparison,*mat.Dense[mrc],ConstrSense[m]
PolynomialMatrix[m].Comparison,*mat.Dense[mrcx],ConstrSense[m]
PolynomialMatrix[m].Comparison,Dense[mrc],ConstrSense[m]
PolynomialMatrix[m].Comparison,Dense[mrcx],ConstrSense[m]
PolynomialMatrix[m].Comparison,KMatrix[mrc],ConstrSense[m]
PolynomialMatrix[m].Comparison,KMatrix[mrcx],ConstrSense[m]
PolynomialMatrix[m].Comparison,float64,ConstrSense[m]
PolynomialMatrix[m].DerivativeWrt,var
PolynomialMatrix[m].Eq,*mat.Dense[mrc]
PolynomialMatrix[m].Eq,*mat.Dense[mrcx]
PolynomialMatrix[m].Eq,Dense[mrc]
PolynomialMatrix[m].Eq,Dense[mrcx]
PolynomialMatrix[m].Eq,KMatrix[mrc]
PolynomialMatrix[m].Eq,KMatrix[mrcx]
PolynomialMatrix[m].Eq,float64
PolynomialMatrix[m].GreaterEq,*mat.Dense[mrc]
PolynomialMatrix[m].GreaterEq,*mat.Dense[mrcx]
PolynomialMatrix[m].GreaterEq,Dense[mrc]
PolynomialMatrix[m].GreaterEq,Dense[mrcx]
PolynomialMatrix[m].GreaterEq,KMatrix[mrc]
PolynomialMatrix[m].GreaterEq,KMatrix[mrcx]
PolynomialMatrix[m].GreaterEq,float64
PolynomialMatrix[m].LessEq,*mat.Dense[mrc]
PolynomialMatrix[m].LessEq,*mat.Dense[mrcx]
PolynomialMatrix[m].LessEq,Dense[mrc]
PolynomialMatrix[m].LessEq,Dense[mrcx]
PolynomialMatrix[m].LessEq,KMatrix[mrc]
PolynomialMatrix[m].LessEq,KMatrix[mrcx]
PolynomialMatrix[m].LessEq,float64
PolynomialMatrix[m].Minus,*mat.Dense[mrcx]
PolynomialMatrix[m].Minus,Dense[mrc]
PolynomialMatrix[m].Minus,Dense[mrcx]
PolynomialMatrix[m].Minus,KMatrix[mrc]
PolynomialMatrix[m].Minus,KMatrix[mrcx]
PolynomialMatrix[m].Minus,KVector[1]
PolynomialMatrix[m].Minus,K[1]
PolynomialMatrix[m].Minus,MonomialMatrix[mrc]
PolynomialMatrix[m].Minus,MonomialMatrix[mrcx]
PolynomialMatrix[m].Minus,MonomialVector[1]
PolynomialMatrix[m].Minus,Monomial[1]
PolynomialMatrix[m].Minus,PolynomialMatrix[mrc]
PolynomialMatrix[m].Minus,PolynomialMatrix[mrcx]
PolynomialMatrix[m].Minus,PolynomialVector[1]
PolynomialMatrix[m].Minus,Polynomial[1]
PolynomialMatrix[m].Minus,VariableMatrix[mrc]
PolynomialMatrix[m].Minus,VariableMatrix[mrcx]
PolynomialMatrix[m].Minus,VariableVector[1]
PolynomialMatrix[m].Minus,Variable[1]
PolynomialMatrix[m].Minus,VecDense[1]
PolynomialMatrix[m].Minus,float64
PolynomialMatrix[m].Multiply,KMatrix[mcx]
PolynomialMatrix[m].Multiply,KMatrix[mrcx]
PolynomialMatrix[m].Multiply,KMatrix[mrx]
PolynomialMatrix[m].Multiply,KMatrix[mx]
PolynomialMatrix[m].Multiply,KMatrix[vrx]
PolynomialMatrix[m].Multiply,K[1]
PolynomialMatrix[m].Multiply,MonomialMatrix[mcx]
PolynomialMatrix[m].Multiply,MonomialMatrix[mrcx]
PolynomialMatrix[m].Multiply,MonomialMatrix[mrx]
PolynomialMatrix[m].Multiply,MonomialMatrix[mx]
PolynomialMatrix[m].Multiply,MonomialMatrix[vrx]
PolynomialMatrix[m].Multiply,PolynomialMatrix[mcx]
PolynomialMatrix[m].Multiply,PolynomialMatrix[mrcx]
PolynomialMatrix[m].Multiply,PolynomialMatrix[mrx]
PolynomialMatrix[m].Multiply,PolynomialMatrix[mx]
PolynomialMatrix[m].Multiply,PolynomialMatrix[vrx]
PolynomialMatrix[m].Multiply,VariableMatrix[mrcx]
PolynomialMatrix[m].Multiply,VariableMatrix[mrx]
PolynomialMatrix[m].Multiply,VariableMatrix[mx]
PolynomialMatrix[m].Multiply,VariableMatrix[vrx]
PolynomialMatrix[m].Multiply,VariableVector[vrx]
PolynomialMatrix[m].Multiply,VariableVector[vx]
PolynomialMatrix[m].Multiply,float64
PolynomialMatrix[m].Plus,KMatrix[mrc]
PolynomialMatrix[m].Plus,KMatrix[mrcx]
PolynomialMatrix[m].Plus,K[1]
PolynomialMatrix[m].Plus,MonomialMatrix[mrc]
PolynomialMatrix[m].Plus,MonomialMatrix[mrcx]
PolynomialMatrix[m].Plus,Monomial[1]
PolynomialMatrix[m].Plus,PolynomialMatrix[mrc]
PolynomialMatrix[m].Plus,PolynomialMatrix[mrcx]
PolynomialMatrix[m].Plus,Polynomial[1]
PolynomialMatrix[m].Plus,VariableMatrix[mrc]
PolynomialMatrix[m].Plus,VariableMatrix[mrcx]
PolynomialMatrix[m].Plus,Variable[1]
PolynomialMatrix[m].Plus,float64
PolynomialMatrix[m].Power,int
PolynomialMatrix[m].Simplify
PolynomialMatrix[m].Substitute,var,K[1]
PolynomialMatrix[m].Substitute,var,Monomial[1]
PolynomialMatrix[m].Substitute,var,Polynomial[1]
PolynomialMatrix[m].Substitute,var,var
PolynomialMatrix[m].SubstituteAccordingTo,map
PolynomialMatrix[m].Transpose
PolynomialMatrix[r].AsSimplifiedExpression
PolynomialMatrix[r].At,int,int
PolynomialMatrix[r].Comparison,Dense[rrc],ConstrSense[m]
PolynomialMatrix[r].Comparison,KMatrix[rrc],ConstrSense[m]
PolynomialMatrix[r].DerivativeWrt,var
PolynomialMatrix[r].Eq,Dense[rrc]
PolynomialMatrix[r].Eq,KMatrix[rrc]
PolynomialMatrix[r].GreaterEq,Dense[rrc]
PolynomialMatrix[r].GreaterEq,KMatrix[rrc]
PolynomialMatrix[r].LessEq,Dense[rrc]
PolynomialMatrix[r].LessEq,KMatrix[rrc]
PolynomialMatrix[r].Minus,KMatrix[rrc]
PolynomialMatrix[r].Minus,KVector[1]
PolynomialMatrix[r].Minus,K[1]
PolynomialMatrix[r].Minus,MonomialMatrix[rrc]
PolynomialMatrix[r].Minus,MonomialVector[1]
PolynomialMatrix[r].Minus,Monomial[1]
PolynomialMatrix[r].Minus,PolynomialMatrix[rrc]
PolynomialMatrix[r].Minus,PolynomialVector[1]
PolynomialMatrix[r].Minus,Polynomial[1]
PolynomialMatrix[r].Minus,VariableVector[1]
PolynomialMatrix[r].Minus,Variable[1]
PolynomialMatrix[r].Minus,VecDense[1]
PolynomialMatrix[r].Multiply,KMatrix[mcx]
PolynomialMatrix[r].Multiply,KMatrix[vx]
PolynomialMatrix[r].Multiply,K[1]
PolynomialMatrix[r].Multiply,MonomialMatrix[mcx]
PolynomialMatrix[r].Multiply,MonomialMatrix[vx]
PolynomialMatrix[r].Multiply,PolynomialMatrix[mcx]
PolynomialMatrix[r].Multiply,PolynomialMatrix[vx]
PolynomialMatrix[r].Multiply,VariableMatrix[mcx]
PolynomialMatrix[r].Multiply,VariableMatrix[vx]
PolynomialMatrix[r].Multiply,VariableVector[vx]
PolynomialMatrix[r].Plus,KMatrix[rrc]
PolynomialMatrix[r].Plus,K[1]
PolynomialMatrix[r].Plus,MonomialMatrix[rrc]
PolynomialMatrix[r].Plus,Monomial[1]
PolynomialMatrix[r].Plus,PolynomialMatrix[rrc]
PolynomialMatrix[r].Plus,Polynomial[1]
PolynomialMatrix[r].Plus,VariableMatrix[rrc]
PolynomialMatrix[r].Plus,Variable[1]
PolynomialMatrix[r].Simplify
PolynomialMatrix[r].Substitute,var,K[1]
PolynomialMatrix[r].Substitute,var,Monomial[1]
PolynomialMatrix[r].Substitute,var,Polynomial[1]
PolynomialMatrix[r].Substitute,var,var
PolynomialMatrix[r].SubstituteAccordingTo,map
PolynomialMatrix[r].Transpose
PolynomialMatrix[v].AsSimplifiedExpression
PolynomialMatrix[v].At,int,int
PolynomialMatrix[v].Comparison,Dense[vrc],ConstrSense[m]
PolynomialMatrix[v].Comparison,KMatrix[vrc],ConstrSense[m]
PolynomialMatrix[v].DerivativeWrt,var
PolynomialMatrix[v].Eq,Dense[vrc]
PolynomialMatrix[v].Eq,KMatrix[vrc]
PolynomialMatrix[v].GreaterEq,Dense[vrc]
PolynomialMatrix[v].GreaterEq,KMatrix[vrc]
PolynomialMatrix[v].LessEq,Dense[vrc]
PolynomialMatrix[v].LessEq,KMatrix[vrc]
PolynomialMatrix[v].Minus,Dense[vrc]
PolynomialMatrix[v].Minus,KMatrix[vrc]
PolynomialMatrix[v].Minus,KVector[1]
PolynomialMatrix[v].Minus,K[1]
PolynomialMatrix[v].Minus,MonomialMatrix[vrc]
PolynomialMatrix[v].Minus,MonomialVector[1]
PolynomialMatrix[v].Minus,Monomial[1]
PolynomialMatrix[v].Minus,PolynomialVector[1]
PolynomialMatrix[v].Minus,Polynomial[1]
PolynomialMatrix[v].Minus,VariableMatrix[vrc]
PolynomialMatrix[v].Minus,VariableVector[1]
PolynomialMatrix[v].Minus,Variable[1]
PolynomialMatrix[v].Minus,VecDense[1]
PolynomialMatrix[v].Multiply,KMatrix[rx]
PolynomialMatrix[v].Multiply,K[1]
PolynomialMatrix[v].Multiply,MonomialMatrix[rx]
PolynomialMatrix[v].Multiply,PolynomialMatrix[rx]
PolynomialMatrix[v].Multiply,VariableMatrix[rx]
PolynomialMatrix[v].Multiply,VariableVector[1]
PolynomialMatrix[v].Plus,KMatrix[vrc]
PolynomialMatrix[v].Plus,K[1]
PolynomialMatrix[v].Plus,MonomialMatrix[vrc]
PolynomialMatrix[v].Plus,Monomial[1]
PolynomialMatrix[v].Plus,PolynomialMatrix[vrc]
PolynomialMatrix[v].Plus,Polynomial[1]
PolynomialMatrix[v].Plus,VariableMatrix[vrc]
PolynomialMatrix[v].Plus,Variable[1]
PolynomialMatrix[v].Simplify
PolynomialMatrix[v].Substitute,var,K[1]
PolynomialMatrix[v].Substitute,var,Monomial[1]
PolynomialMatrix[v].Substitute,var,Polynomial[1]
PolynomialMatrix[v].Substitute,var,var
PolynomialMatrix[v].SubstituteAccordingTo,map
PolynomialMatrix[v].Transpose
PolynomialVector[1].AsSimplifiedExpression
PolynomialVector[1].At,int,int
PolynomialVector[1].AtVec,int
PolynomialVector[1].Comparison,KVector[1],ConstrSense[m]
PolynomialVector[1].Comparison,K[1],ConstrSense[m]
PolynomialVector[1].Comparison,MonomialVector[1],ConstrSense[m]
PolynomialVector[1].Comparison,PolynomialVector[1],ConstrSense[m]
PolynomialVector[1].Comparison,VariableVector[1],ConstrSense[m]
PolynomialVector[1].Comparison,VecDense[1],ConstrSense[m]
PolynomialVector[1].Comparison,float64,ConstrSense[m]
PolynomialVector[1].DerivativeWrt,var
PolynomialVector[1].Eq,KVector[1]
PolynomialVector[1].Eq,K[1]
PolynomialVector[1].Eq,MonomialVector[1]
PolynomialVector[1].Eq,PolynomialVector[1]
PolynomialVector[1].Eq,VariableVector[1]
PolynomialVector[1].Eq,VecDense[1]
PolynomialVector[1].Eq,float64
PolynomialVector[1].GreaterEq,KVector[1]
PolynomialVector[1].GreaterEq,K[1]
PolynomialVector[1].GreaterEq,MonomialVector[1]
PolynomialVector[1].GreaterEq,PolynomialVector[1]
PolynomialVector[1].GreaterEq,VariableVector[1]
PolynomialVector[1].GreaterEq,VecDense[1]
PolynomialVector[1].GreaterEq,float64
PolynomialVector[1].LessEq,KVector[1]
PolynomialVector[1].LessEq,K[1]
PolynomialVector[1].LessEq,MonomialVector[1]
PolynomialVector[1].LessEq,PolynomialVector[1]
PolynomialVector[1].LessEq,VariableVector[1]
PolynomialVector[1].LessEq,VecDense[1]
PolynomialVector[1].LessEq,float64
PolynomialVector[1].Minus,KVector[1]
PolynomialVector[1].Minus,KVector[v]
PolynomialVector[1].Minus,K[1]
PolynomialVector[1].Minus,MonomialVector[1]
PolynomialVector[1].Minus,MonomialVector[v]
PolynomialVector[1].Minus,Monomial[1]
PolynomialVector[1].Minus,PolynomialMatrix[v]
PolynomialVector[1].Minus,PolynomialVector[1]
PolynomialVector[1].Minus,PolynomialVector[v]
PolynomialVector[1].Minus,Polynomial[1]
PolynomialVector[1].Minus,VariableVector[1]
PolynomialVector[1].Minus,VariableVector[v]
PolynomialVector[1].Minus,Variable[1]
PolynomialVector[1].Minus,VecDense[1]
PolynomialVector[1].Minus,VecDense[v]
PolynomialVector[1].Minus,float64
PolynomialVector[1].Multiply,K[1]
PolynomialVector[1].Multiply,PolynomialVector[1]
PolynomialVector[1].Multiply,PolynomialVector[v]
PolynomialVector[1].Multiply,Polynomial[1]
PolynomialVector[1].Multiply,float64
PolynomialVector[1].Plus,KVector[1]
PolynomialVector[1].Plus,KVector[v]
PolynomialVector[1].Plus,K[1]
PolynomialVector[1].Plus,MonomialVector[1]
PolynomialVector[1].Plus,MonomialVector[v]
PolynomialVector[1].Plus,Monomial[1]
PolynomialVector[1].Plus,PolynomialVector[1]
PolynomialVector[1].Plus,PolynomialVector[v]
PolynomialVector[1].Plus,Polynomial[1]
PolynomialVector[1].Plus,VariableVector[1]
PolynomialVector[1].Plus,VariableVector[v]
PolynomialVector[1].Plus,Variable[1]
PolynomialVector[1].Plus,float64
PolynomialVector[1].Power,int
PolynomialVector[1].Simplify
PolynomialVector[1].Substitute,var,K[1]
PolynomialVector[1].Substitute,var,Monomial[1]
PolynomialVector[1].Substitute,var,Polynomial[1]
PolynomialVector[1].Substitute,var,var
PolynomialVector[1].SubstituteAccordingTo,map
PolynomialVector[1].Transpose
PolynomialVector[v].AsSimplifiedExpression
PolynomialVector[v].At,int,int
PolynomialVector[v].AtVec,int
PolynomialVector[v].Comparison,*mat.VecDense[vrc],ConstrSense[m]
PolynomialVector[v].Comparison,KVector[vrc],ConstrSense[m]
PolynomialVector[v].Comparison,MonomialVector[vrc],ConstrSense[m]
PolynomialVector[v].Comparison,PolynomialVector[vrc],ConstrSense[m]
PolynomialVector[v].Comparison,VariableVector[vrc],ConstrSense[m]
PolynomialVector[v].Comparison,VecDense[vrc],ConstrSense[m]
PolynomialVector[v].Comparison,float64,ConstrSense[m]
PolynomialVector[v].DerivativeWrt,var
PolynomialVector[v].Eq,*mat.VecDense[vrc]
PolynomialVector[v].Eq,KVector[vrc]
PolynomialVector[v].Eq,MonomialVector[vrc]
PolynomialVector[v].Eq,PolynomialVector[vrc]
PolynomialVector[v].Eq,VariableVector[vrc]
PolynomialVector[v].Eq,VecDense[vrc]
PolynomialVector[v].Eq,float64
PolynomialVector[v].GreaterEq,*mat.VecDense[vrc]
PolynomialVector[v].GreaterEq,KVector[vrc]
PolynomialVector[v].GreaterEq,MonomialVector[vrc]
PolynomialVector[v].GreaterEq,PolynomialVector[vrc]
PolynomialVector[v].GreaterEq,VariableVector[vrc]
PolynomialVector[v].GreaterEq,VecDense[vrc]
PolynomialVector[v].GreaterEq,float64
PolynomialVector[v].LessEq,*mat.VecDense[vrc]
PolynomialVector[v].LessEq,KVector[vrc]
PolynomialVector[v].LessEq,MonomialVector[vrc]
PolynomialVector[v].LessEq,PolynomialVector[vrc]
PolynomialVector[v].LessEq,VariableVector[vrc]
PolynomialVector[v].LessEq,VecDense[vrc]
PolynomialVector[v].LessEq,float64
PolynomialVector[v].Minus,*mat.VecDense[vrc]
PolynomialVector[v].Minus,KVector[1]
PolynomialVector[v].Minus,KVector[vrc]
PolynomialVector[v].Minus,K[1]
PolynomialVector[v].Minus,MonomialVector[1]
PolynomialVector[v].Minus,MonomialVector[vrc]
PolynomialVector[v].Minus,Monomial[1]
PolynomialVector[v].Minus,PolynomialMatrix[vrc]
PolynomialVector[v].Minus,PolynomialVector[1]
PolynomialVector[v].Minus,PolynomialVector[vrc]
PolynomialVector[v].Minus,Polynomial[1]
PolynomialVector[v].Minus,VariableVector[1]
PolynomialVector[v].Minus,VariableVector[vrc]
PolynomialVector[v].Minus,Variable[1]
PolynomialVector[v].Minus,VecDense[1]
PolynomialVector[v].Minus,VecDense[vrc]
PolynomialVector[v].Minus,float64
PolynomialVector[v].Multiply,K[1]
PolynomialVector[v].Multiply,PolynomialVector[1]
PolynomialVector[v].Multiply,Polynomial[1]
PolynomialVector[v].Multiply,float64
PolynomialVector[v].Plus,KVector[vrc]
PolynomialVector[v].Plus,K[1]
PolynomialVector[v].Plus,MonomialVector[vrc]
PolynomialVector[v].Plus,Monomial[1]
PolynomialVector[v].Plus,PolynomialVector[vrc]
PolynomialVector[v].Plus,Polynomial[1]
PolynomialVector[v].Plus,VariableVector[vrc]
PolynomialVector[v].Plus,Variable[1]
PolynomialVector[v].Plus,float64
PolynomialVector[v].Simplify
PolynomialVector[v].Substitute,var,K[1]
PolynomialVector[v].Substitute,var,Monomial[1]
PolynomialVector[v].Substitute,var,Polynomial[1]
PolynomialVector[v].Substitute,var,var
PolynomialVector[v].SubstituteAccordingTo,map
PolynomialVector[v].Transpose
Polynomial[1].AsSimplifiedExpression
Polynomial[1].At,int,int
Polynomial[1].Comparison,K[1],ConstrSense[m]
Polynomial[1].Comparison,Monomial[1],ConstrSense[m]
Polynomial[1].Comparison,Polynomial[1],ConstrSense[m]
Polynomial[1].Comparison,Variable[1],ConstrSense[m]
Polynomial[1].Comparison,float64,ConstrSense[m]
Polynomial[1].Comparison,int,ConstrSense[m]
Polynomial[1].Copy
Polynomial[1].DerivativeWrt,var
Polynomial[1].Eq,K[1]
Polynomial[1].Eq,Monomial[1]
Polynomial[1].Eq,Polynomial[1]
Polynomial[1].Eq,Variable[1]
Polynomial[1].Eq,float64
Polynomial[1].Eq,int
Polynomial[1].GreaterEq,K[1]
Polynomial[1].GreaterEq,Monomial[1]
Polynomial[1].GreaterEq,Polynomial[1]
Polynomial[1].GreaterEq,Variable[1]
Polynomial[1].GreaterEq,float64
Polynomial[1].GreaterEq,int
Polynomial[1].LessEq,K[1]
Polynomial[1].LessEq,Monomial[1]
Polynomial[1].LessEq,Polynomial[1]
Polynomial[1].LessEq,Variable[1]
Polynomial[1].LessEq,float64
Polynomial[1].LessEq,int
Polynomial[1].Minus,*mat.Dense[1]
Polynomial[1].Minus,*mat.Dense[m]
Polynomial[1].Minus,*mat.VecDense[1]
Polynomial[1].Minus,*mat.VecDense[v]
Polynomial[1].Minus,Dense[1]
Polynomial[1].Minus,Dense[m]
Polynomial[1].Minus,Dense[r]
Polynomial[1].Minus,Dense[v]
Polynomial[1].Minus,KMatrix[1]
Polynomial[1].Minus,KMatrix[m]
Polynomial[1].Minus,KMatrix[r]
Polynomial[1].Minus,KMatrix[v]
Polynomial[1].Minus,KVector[1]
Polynomial[1].Minus,KVector[v]
Polynomial[1].Minus,K[1]
Polynomial[1].Minus,MonomialMatrix[m]
Polynomial[1].Minus,MonomialMatrix[r]
Polynomial[1].Minus,MonomialMatrix[v]
Polynomial[1].Minus,MonomialVector[1]
Polynomial[1].Minus,MonomialVector[v]
Polynomial[1].Minus,Monomial[1]
Polynomial[1].Minus,PolynomialMatrix[m]
Polynomial[1].Minus,PolynomialMatrix[r]
Polynomial[1].Minus,PolynomialMatrix[v]
Polynomial[1].Minus,PolynomialVector[1]
Polynomial[1].Minus,PolynomialVector[v]
Polynomial[1].Minus,Polynomial[1]
Polynomial[1].Minus,VariableMatrix[m]
Polynomial[1].Minus,VariableMatrix[r]
Polynomial[1].Minus,VariableMatrix[v]
Polynomial[1].Minus,VariableVector[1]
Polynomial[1].Minus,VariableVector[v]
Polynomial[1].Minus,Variable[1]
Polynomial[1].Minus,VecDense[1]
Polynomial[1].Minus,VecDense[v]
Polynomial[1].Minus,float64
Polynomial[1].Multiply,KMatrix[1]
Polynomial[1].Multiply,KMatrix[m]
Polynomial[1].Multiply,KMatrix[r]
Polynomial[1].Multiply,KMatrix[v]
Polynomial[1].Multiply,KVector[1]
Polynomial[1].Multiply,KVector[v]
Polynomial[1].Multiply,K[1]
Polynomial[1].Multiply,MonomialVector[1]
Polynomial[1].Multiply,MonomialVector[v]
Polynomial[1].Multiply,Monomial[1]
Polynomial[1].Multiply,PolynomialVector[1]
Polynomial[1].Multiply,PolynomialVector[v]
Polynomial[1].Multiply,Polynomial[1]
Polynomial[1].Multiply,VariableVector[1]
Polynomial[1].Multiply,VariableVector[v]
Polynomial[1].Multiply,Variable[1]
Polynomial[1].Multiply,float64
Polynomial[1].Plus,KMatrix[1]
Polynomial[1].Plus,KMatrix[m]
Polynomial[1].Plus,KMatrix[r]
Polynomial[1].Plus,KMatrix[v]
Polynomial[1].Plus,KVector[1]
Polynomial[1].Plus,KVector[v]
Polynomial[1].Plus,K[1]
Polynomial[1].Plus,MonomialMatrix[m]
Polynomial[1].Plus,MonomialMatrix[r]
Polynomial[1].Plus,MonomialMatrix[v]
Polynomial[1].Plus,MonomialVector[1]
Polynomial[1].Plus,MonomialVector[v]
Polynomial[1].Plus,Monomial[1]
Polynomial[1].Plus,PolynomialMatrix[m]
Polynomial[1].Plus,PolynomialMatrix[r]
Polynomial[1].Plus,PolynomialMatrix[v]
Polynomial[1].Plus,PolynomialVector[1]
Polynomial[1].Plus,PolynomialVector[v]
Polynomial[1].Plus,Polynomial[1]
Polynomial[1].Plus,VariableMatrix[m]
Polynomial[1].Plus,VariableMatrix[r]
Polynomial[1].Plus,VariableMatrix[v]
Polynomial[1].Plus,VariableVector[1]
Polynomial[1].Plus,VariableVector[v]
Polynomial[1].Plus,Variable[1]
Polynomial[1].Plus,float64
Polynomial[1].Power,int
Polynomial[1].Simplify
Polynomial[1].Substitute,var,K[1]
Polynomial[1].Substitute,var,Monomial[1]
Polynomial[1].Substitute,var,Polynomial[1]
Polynomial[1].Substitute,var,var
Polynomial[1].SubstituteAccordingTo,map
Polynomial[1].Transpose
ScalarConstraint(K[1],K[1]).AsSimplifiedConstraint
ScalarConstraint(K[1],K[1]).ConstrSense
ScalarConstraint(K[1],K[1]).Left
ScalarConstraint(K[1],K[1]).Right
ScalarConstraint(K[1],K[1]).ScaleBy,float64
ScalarConstraint(K[1],K[1]).Simplify
ScalarConstraint(K[1],K[1]).Substitute,var,K[1]
ScalarConstraint(K[1],K[1]).Substitute,var,Monomial[1]
ScalarConstraint(K[1],K[1]).Substitute,var,Polynomial[1]
ScalarConstraint(K[1],K[1]).Substitute,var,var
ScalarConstraint(K[1],K[1]).SubstituteAccordingTo,map
ScalarConstraint(K[1],Monomial[1]).AsSimplifiedConstraint
ScalarConstraint(K[1],Monomial[1]).ConstrSense
ScalarConstraint(K[1],Monomial[1]).Left
ScalarConstraint(K[1],Monomial[1]).Right
ScalarConstraint(K[1],Monomial[1]).ScaleBy,float64
ScalarConstraint(K[1],Monomial[1]).Simplify
ScalarConstraint(K[1],Monomial[1]).Substitute,var,K[1]
ScalarConstraint(K[1],Monomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(K[1],Monomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(K[1],Monomial[1]).Substitute,var,var
ScalarConstraint(K[1],Monomial[1]).SubstituteAccordingTo,map
ScalarConstraint(K[1],Polynomial[1]).AsSimplifiedConstraint
ScalarConstraint(K[1],Polynomial[1]).ConstrSense
ScalarConstraint(K[1],Polynomial[1]).Left
ScalarConstraint(K[1],Polynomial[1]).Right
ScalarConstraint(K[1],Polynomial[1]).ScaleBy,float64
ScalarConstraint(K[1],Polynomial[1]).Simplify
ScalarConstraint(K[1],Polynomial[1]).Substitute,var,K[1]
ScalarConstraint(K[1],Polynomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(K[1],Polynomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(K[1],Polynomial[1]).Substitute,var,var
ScalarConstraint(K[1],Polynomial[1]).SubstituteAccordingTo,map
ScalarConstraint(K[1],Variable[1]).AsSimplifiedConstraint
ScalarConstraint(K[1],Variable[1]).ConstrSense
ScalarConstraint(K[1],Variable[1]).Left
ScalarConstraint(K[1],Variable[1]).Right
ScalarConstraint(K[1],Variable[1]).ScaleBy,float64
ScalarConstraint(K[1],Variable[1]).Simplify
ScalarConstraint(K[1],Variable[1]).Substitute,var,K[1]
ScalarConstraint(K[1],Variable[1]).Substitute,var,Monomial[1]
ScalarConstraint(K[1],Variable[1]).Substitute,var,Polynomial[1]
ScalarConstraint(K[1],Variable[1]).Substitute,var,var
ScalarConstraint(K[1],Variable[1]).SubstituteAccordingTo,map
ScalarConstraint(Monomial[1],K[1]).AsSimplifiedConstraint
ScalarConstraint(Monomial[1],K[1]).ConstrSense
ScalarConstraint(Monomial[1],K[1]).Left
ScalarConstraint(Monomial[1],K[1]).Right
ScalarConstraint(Monomial[1],K[1]).ScaleBy,float64
ScalarConstraint(Monomial[1],K[1]).Simplify
ScalarConstraint(Monomial[1],K[1]).Substitute,var,K[1]
ScalarConstraint(Monomial[1],K[1]).Substitute,var,Monomial[1]
ScalarConstraint(Monomial[1],K[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Monomial[1],K[1]).Substitute,var,var
ScalarConstraint(Monomial[1],K[1]).SubstituteAccordingTo,map
ScalarConstraint(Monomial[1],Monomial[1]).AsSimplifiedConstraint
ScalarConstraint(Monomial[1],Monomial[1]).ConstrSense
ScalarConstraint(Monomial[1],Monomial[1]).Left
ScalarConstraint(Monomial[1],Monomial[1]).Right
ScalarConstraint(Monomial[1],Monomial[1]).ScaleBy,float64
ScalarConstraint(Monomial[1],Monomial[1]).Simplify
ScalarConstraint(Monomial[1],Monomial[1]).Substitute,var,K[1]
ScalarConstraint(Monomial[1],Monomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(Monomial[1],Monomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Monomial[1],Monomial[1]).Substitute,var,var
ScalarConstraint(Monomial[1],Monomial[1]).SubstituteAccordingTo,map
ScalarConstraint(Monomial[1],Polynomial[1]).AsSimplifiedConstraint
ScalarConstraint(Monomial[1],Polynomial[1]).ConstrSense
ScalarConstraint(Monomial[1],Polynomial[1]).Left
ScalarConstraint(Monomial[1],Polynomial[1]).Right
ScalarConstraint(Monomial[1],Polynomial[1]).ScaleBy,float64
ScalarConstraint(Monomial[1],Polynomial[1]).Simplify
ScalarConstraint(Monomial[1],Polynomial[1]).Substitute,var,K[1]
ScalarConstraint(Monomial[1],Polynomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(Monomial[1],Polynomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Monomial[1],Polynomial[1]).Substitute,var,var
ScalarConstraint(Monomial[1],Polynomial[1]).SubstituteAccordingTo,map
ScalarConstraint(Monomial[1],Variable[1]).AsSimplifiedConstraint
ScalarConstraint(Monomial[1],Variable[1]).ConstrSense
ScalarConstraint(Monomial[1],Variable[1]).Left
ScalarConstraint(Monomial[1],Variable[1]).Right
ScalarConstraint(Monomial[1],Variable[1]).ScaleBy,float64
ScalarConstraint(Monomial[1],Variable[1]).Simplify
ScalarConstraint(Monomial[1],Variable[1]).Substitute,var,K[1]
ScalarConstraint(Monomial[1],Variable[1]).Substitute,var,Monomial[1]
ScalarConstraint(Monomial[1],Variable[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Monomial[1],Variable[1]).Substitute,var,var
ScalarConstraint(Monomial[1],Variable[1]).SubstituteAccordingTo,map
ScalarConstraint(Polynomial[1],K[1]).AsSimplifiedConstraint
ScalarConstraint(Polynomial[1],K[1]).ConstrSense
ScalarConstraint(Polynomial[1],K[1]).Left
ScalarConstraint(Polynomial[1],K[1]).Right
ScalarConstraint(Polynomial[1],K[1]).ScaleBy,float64
ScalarConstraint(Polynomial[1],K[1]).Simplify
ScalarConstraint(Polynomial[1],K[1]).Substitute,var,K[1]
ScalarConstraint(Polynomial[1],K[1]).Substitute,var,Monomial[1]
ScalarConstraint(Polynomial[1],K[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Polynomial[1],K[1]).Substitute,var,var
ScalarConstraint(Polynomial[1],K[1]).SubstituteAccordingTo,map
ScalarConstraint(Polynomial[1],Monomial[1]).AsSimplifiedConstraint
ScalarConstraint(Polynomial[1],Monomial[1]).ConstrSense
ScalarConstraint(Polynomial[1],Monomial[1]).Left
ScalarConstraint(Polynomial[1],Monomial[1]).Right
ScalarConstraint(Polynomial[1],Monomial[1]).ScaleBy,float64
ScalarConstraint(Polynomial[1],Monomial[1]).Simplify
ScalarConstraint(Polynomial[1],Monomial[1]).Substitute,var,K[1]
ScalarConstraint(Polynomial[1],Monomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(Polynomial[1],Monomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Polynomial[1],Monomial[1]).Substitute,var,var
ScalarConstraint(Polynomial[1],Monomial[1]).SubstituteAccordingTo,map
ScalarConstraint(Polynomial[1],Polynomial[1]).AsSimplifiedConstraint
ScalarConstraint(Polynomial[1],Polynomial[1]).ConstrSense
ScalarConstraint(Polynomial[1],Polynomial[1]).Left
ScalarConstraint(Polynomial[1],Polynomial[1]).Right
ScalarConstraint(Polynomial[1],Polynomial[1]).ScaleBy,float64
ScalarConstraint(Polynomial[1],Polynomial[1]).Simplify
ScalarConstraint(Polynomial[1],Polynomial[1]).Substitute,var,K[1]
ScalarConstraint(Polynomial[1],Polynomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(Polynomial[1],Polynomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Polynomial[1],Polynomial[1]).Substitute,var,var
ScalarConstraint(Polynomial[1],Polynomial[1]).SubstituteAccordingTo,map
ScalarConstraint(Polynomial[1],Variable[1]).AsSimplifiedConstraint
ScalarConstraint(Polynomial[1],Variable[1]).ConstrSense
ScalarConstraint(Polynomial[1],Variable[1]).Left
ScalarConstraint(Polynomial[1],Variable[1]).Right
ScalarConstraint(Polynomial[1],Variable[1]).ScaleBy,float64
ScalarConstraint(Polynomial[1],Variable[1]).Simplify
ScalarConstraint(Polynomial[1],Variable[1]).Substitute,var,K[1]
ScalarConstraint(Polynomial[1],Variable[1]).Substitute,var,Monomial[1]
ScalarConstraint(Polynomial[1],Variable[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Polynomial[1],Variable[1]).Substitute,var,var
ScalarConstraint(Polynomial[1],Variable[1]).SubstituteAccordingTo,map
ScalarConstraint(Variable[1],K[1]).AsSimplifiedConstraint
ScalarConstraint(Variable[1],K[1]).ConstrSense
ScalarConstraint(Variable[1],K[1]).Left
ScalarConstraint(Variable[1],K[1]).Right
ScalarConstraint(Variable[1],K[1]).ScaleBy,float64
ScalarConstraint(Variable[1],K[1]).Simplify
ScalarConstraint(Variable[1],K[1]).Substitute,var,K[1]
ScalarConstraint(Variable[1],K[1]).Substitute,var,Monomial[1]
ScalarConstraint(Variable[1],K[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Variable[1],K[1]).Substitute,var,var
ScalarConstraint(Variable[1],K[1]).SubstituteAccordingTo,map
ScalarConstraint(Variable[1],Monomial[1]).AsSimplifiedConstraint
ScalarConstraint(Variable[1],Monomial[1]).ConstrSense
ScalarConstraint(Variable[1],Monomial[1]).Left
ScalarConstraint(Variable[1],Monomial[1]).Right
ScalarConstraint(Variable[1],Monomial[1]).ScaleBy,float64
ScalarConstraint(Variable[1],Monomial[1]).Simplify
ScalarConstraint(Variable[1],Monomial[1]).Substitute,var,K[1]
ScalarConstraint(Variable[1],Monomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(Variable[1],Monomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Variable[1],Monomial[1]).Substitute,var,var
ScalarConstraint(Variable[1],Monomial[1]).SubstituteAccordingTo,map
ScalarConstraint(Variable[1],Polynomial[1]).AsSimplifiedConstraint
ScalarConstraint(Variable[1],Polynomial[1]).ConstrSense
ScalarConstraint(Variable[1],Polynomial[1]).Left
ScalarConstraint(Variable[1],Polynomial[1]).Right
ScalarConstraint(Variable[1],Polynomial[1]).ScaleBy,float64
ScalarConstraint(Variable[1],Polynomial[1]).Simplify
ScalarConstraint(Variable[1],Polynomial[1]).Substitute,var,K[1]
ScalarConstraint(Variable[1],Polynomial[1]).Substitute,var,Monomial[1]
ScalarConstraint(Variable[1],Polynomial[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Variable[1],Polynomial[1]).Substitute,var,var
ScalarConstraint(Variable[1],Polynomial[1]).SubstituteAccordingTo,map
ScalarConstraint(Variable[1],Variable[1]).AsSimplifiedConstraint
ScalarConstraint(Variable[1],Variable[1]).ConstrSense
ScalarConstraint(Variable[1],Variable[1]).Left
ScalarConstraint(Variable[1],Variable[1]).Right
ScalarConstraint(Variable[1],Variable[1]).ScaleBy,float64
ScalarConstraint(Variable[1],Variable[1]).Simplify
ScalarConstraint(Variable[1],Variable[1]).Substitute,var,K[1]
ScalarConstraint(Variable[1],Variable[1]).Substitute,var,Monomial[1]
ScalarConstraint(Variable[1],Variable[1]).Substitute,var,Polynomial[1]
ScalarConstraint(Variable[1],Variable[1]).Substitute,var,var
ScalarConstraint(Variable[1],Variable[1]).SubstituteAccordingTo,map
VariableMatrix[1].AsSimplifiedExpression
VariableMatrix[1].At,int,int
VariableMatrix[1].DerivativeWrt,var
VariableMatrix[1].Power,int
VariableMatrix[1].Substitute,var,K[1]
VariableMatrix[1].Substitute,var,Monomial[1]
VariableMatrix[1].Substitute,var,Polynomial[1]
VariableMatrix[1].Substitute,var,var
VariableMatrix[1].SubstituteAccordingTo,map
VariableMatrix[1].ToMonomialMatrix
VariableMatrix[1].ToPolynomialMatrix
VariableMatrix[1].Transpose
VariableMatrix[m].AsSimplifiedExpression
VariableMatrix[m].At,int,int
VariableMatrix[m].Comparison,Dense[mrc],ConstrSense[m]
VariableMatrix[m].Comparison,Dense[mrcx],ConstrSense[m]
VariableMatrix[m].Comparison,KMatrix[mrc],ConstrSense[m]
VariableMatrix[m].Comparison,KMatrix[mrcx],ConstrSense[m]
VariableMatrix[m].Comparison,MonomialMatrix[mrc],ConstrSense[m]
VariableMatrix[m].Comparison,MonomialMatrix[mrcx],ConstrSense[m]
VariableMatrix[m].Comparison,PolynomialMatrix[mrc],ConstrSense[m]
VariableMatrix[m].Comparison,PolynomialMatrix[mrcx],ConstrSense[m]
VariableMatrix[m].Comparison,VariableMatrix[mrc],ConstrSense[m]
VariableMatrix[m].Comparison,VariableMatrix[mrcx],ConstrSense[m]
VariableMatrix[m].Comparison,float64,ConstrSense[m]
VariableMatrix[m].DerivativeWrt,var
VariableMatrix[m].Eq,Dense[mrc]
VariableMatrix[m].Eq,Dense[mrcx]
VariableMatrix[m].Eq,KMatrix[mrc]
VariableMatrix[m].Eq,KMatrix[mrcx]
VariableMatrix[m].Eq,MonomialMatrix[mrc]
VariableMatrix[m].Eq,MonomialMatrix[mrcx]
VariableMatrix[m].Eq,PolynomialMatrix[mrc]
VariableMatrix[m].Eq,PolynomialMatrix[mrcx]
VariableMatrix[m].Eq,VariableMatrix[mrc]
VariableMatrix[m].Eq,VariableMatrix[mrcx]
VariableMatrix[m].Eq,float64
VariableMatrix[m].GreaterEq,Dense[mrc]
VariableMatrix[m].GreaterEq,Dense[mrcx]
VariableMatrix[m].GreaterEq,KMatrix[mrc]
VariableMatrix[m].GreaterEq,KMatrix[mrcx]
VariableMatrix[m].GreaterEq,MonomialMatrix[mrc]
VariableMatrix[m].GreaterEq,MonomialMatrix[mrcx]
VariableMatrix[m].GreaterEq,PolynomialMatrix[mrc]
VariableMatrix[m].GreaterEq,PolynomialMatrix[mrcx]
VariableMatrix[m].GreaterEq,VariableMatrix[mrc]
VariableMatrix[m].GreaterEq,VariableMatrix[mrcx]
VariableMatrix[m].GreaterEq,float64
VariableMatrix[m].LessEq,Dense[mrc]
VariableMatrix[m].LessEq,Dense[mrcx]
VariableMatrix[m].LessEq,KMatrix[mrc]
VariableMatrix[m].LessEq,KMatrix[mrcx]
VariableMatrix[m].LessEq,MonomialMatrix[mrc]
VariableMatrix[m].LessEq,MonomialMatrix[mrcx]
VariableMatrix[m].LessEq,PolynomialMatrix[mrc]
VariableMatrix[m].LessEq,PolynomialMatrix[mrcx]
VariableMatrix[m].LessEq,VariableMatrix[mrc]
VariableMatrix[m].LessEq,VariableMatrix[mrcx]
VariableMatrix[m].LessEq,float64
VariableMatrix[m].Minus,*mat.Dense[mrcx]
VariableMatrix[m].Minus,Dense[mrc]
VariableMatrix[m].Minus,Dense[mrcx]
VariableMatrix[m].Minus,KMatrix[mrc]
VariableMatrix[m].Minus,KMatrix[mrcx]
VariableMatrix[m].Minus,KVector[1]
VariableMatrix[m].Minus,K[1]
VariableMatrix[m].Minus,float64
VariableMatrix[m].Multiply,Dense[mrcx]
VariableMatrix[m].Multiply,Dense[mx]
VariableMatrix[m].Multiply,KMatrix[mrcx]
VariableMatrix[m].Multiply,KMatrix[mx]
VariableMatrix[m].Multiply,KVector[vrx]
VariableMatrix[m].Multiply,KVector[vx]
VariableMatrix[m].Multiply,K[1]
VariableMatrix[m].Multiply,MonomialMatrix[mrcx]
VariableMatrix[m].Multiply,MonomialMatrix[mx]
VariableMatrix[m].Multiply,PolynomialMatrix[mcx]
VariableMatrix[m].Multiply,PolynomialMatrix[mrcx]
VariableMatrix[m].Multiply,PolynomialMatrix[mrx]
VariableMatrix[m].Multiply,PolynomialMatrix[mx]
VariableMatrix[m].Multiply,VariableMatrix[mrcx]
VariableMatrix[m].Multiply,VariableMatrix[mx]
VariableMatrix[m].Multiply,VariableVector[vrx]
VariableMatrix[m].Multiply,VariableVector[vx]
VariableMatrix[m].Multiply,VecDense[vrx]
VariableMatrix[m].Multiply,VecDense[vx]
VariableMatrix[m].Multiply,float64
VariableMatrix[m].Plus,KMatrix[mrc]
VariableMatrix[m].Plus,KMatrix[mrcx]
VariableMatrix[m].Plus,K[1]
VariableMatrix[m].Plus,float64
VariableMatrix[m].Power,int
VariableMatrix[m].Substitute,var,K[1]
VariableMatrix[m].Substitute,var,Monomial[1]
VariableMatrix[m].Substitute,var,Polynomial[1]
VariableMatrix[m].Substitute,var,var
VariableMatrix[m].SubstituteAccordingTo,map
VariableMatrix[m].ToMonomialMatrix
VariableMatrix[m].ToPolynomialMatrix
VariableMatrix[m].Transpose
VariableMatrix[r].AsSimplifiedExpression
VariableMatrix[r].At,int,int
VariableMatrix[r].Comparison,Dense[rrc],ConstrSense[m]
VariableMatrix[r].Comparison,KMatrix[rrc],ConstrSense[m]
VariableMatrix[r].Comparison,MonomialMatrix[rrc],ConstrSense[m]
VariableMatrix[r].Comparison,PolynomialMatrix[rrc],ConstrSense[m]
VariableMatrix[r].Comparison,VariableMatrix[rrc],ConstrSense[m]
VariableMatrix[r].DerivativeWrt,var
VariableMatrix[r].Eq,Dense[rrc]
VariableMatrix[r].Eq,KMatrix[rrc]
VariableMatrix[r].Eq,MonomialMatrix[rrc]
VariableMatrix[r].Eq,PolynomialMatrix[rrc]
VariableMatrix[r].Eq,VariableMatrix[rrc]
VariableMatrix[r].GreaterEq,Dense[rrc]
VariableMatrix[r].GreaterEq,KMatrix[rrc]
VariableMatrix[r].GreaterEq,MonomialMatrix[rrc]
VariableMatrix[r].GreaterEq,PolynomialMatrix[rrc]
VariableMatrix[r].GreaterEq,VariableMatrix[rrc]
VariableMatrix[r].LessEq,Dense[rrc]
VariableMatrix[r].LessEq,KMatrix[rrc]
VariableMatrix[r].LessEq,MonomialMatrix[rrc]
VariableMatrix[r].LessEq,PolynomialMatrix[rrc]
VariableMatrix[r].LessEq,VariableMatrix[rrc]
VariableMatrix[r].Minus,KVector[1]
VariableMatrix[r].Minus,K[1]
VariableMatrix[r].Multiply,KMatrix[mcx]
VariableMatrix[r].Multiply,KVector[vx]
VariableMatrix[r].Multiply,K[1]
VariableMatrix[r].Multiply,PolynomialMatrix[mcx]
VariableMatrix[r].Multiply,PolynomialMatrix[vx]
VariableMatrix[r].Multiply,VariableVector[vx]
VariableMatrix[r].Plus,K[1]
VariableMatrix[r].Substitute,var,K[1]
VariableMatrix[r].Substitute,var,Monomial[1]
VariableMatrix[r].Substitute,var,Polynomial[1]
VariableMatrix[r].Substitute,var,var
VariableMatrix[r].SubstituteAccordingTo,map
VariableMatrix[r].ToMonomialMatrix
VariableMatrix[r].ToPolynomialMatrix
VariableMatrix[r].Transpose
VariableMatrix[v].AsSimplifiedExpression
VariableMatrix[v].At,int,int
VariableMatrix[v].Comparison,Dense[vrc],ConstrSense[m]
VariableMatrix[v].Comparison,KMatrix[vrc],ConstrSense[m]
VariableMatrix[v].Comparison,MonomialMatrix[vrc],ConstrSense[m]
VariableMatrix[v].Comparison,PolynomialMatrix[vrc],ConstrSense[m]
VariableMatrix[v].Comparison,VariableMatrix[vrc],ConstrSense[m]
VariableMatrix[v].DerivativeWrt,var
VariableMatrix[v].Eq,Dense[vrc]
VariableMatrix[v].Eq,KMatrix[vrc]
VariableMatrix[v].Eq,MonomialMatrix[vrc]
VariableMatrix[v].Eq,PolynomialMatrix[vrc]
VariableMatrix[v].Eq,VariableMatrix[vrc]
VariableMatrix[v].GreaterEq,Dense[vrc]
VariableMatrix[v].GreaterEq,KMatrix[vrc]
VariableMatrix[v].GreaterEq,MonomialMatrix[vrc]
VariableMatrix[v].GreaterEq,PolynomialMatrix[vrc]
VariableMatrix[v].GreaterEq,VariableMatrix[vrc]
VariableMatrix[v].LessEq,Dense[vrc]
VariableMatrix[v].LessEq,KMatrix[vrc]
VariableMatrix[v].LessEq,MonomialMatrix[vrc]
VariableMatrix[v].LessEq,PolynomialMatrix[vrc]
VariableMatrix[v].LessEq,VariableMatrix[vrc]
VariableMatrix[v].Minus,KMatrix[vrc]
VariableMatrix[v].Minus,KVector[1]
VariableMatrix[v].Minus,K[1]
VariableMatrix[v].Multiply,Dense[rx]
VariableMatrix[v].Multiply,KMatrix[rx]
VariableMatrix[v].Multiply,KVector[1]
VariableMatrix[v].Multiply,K[1]
VariableMatrix[v].Multiply,MonomialMatrix[rx]
VariableMatrix[v].Multiply,PolynomialMatrix[rx]
VariableMatrix[v].Multiply,VariableVector[1]
VariableMatrix[v].Multiply,VecDense[1]
VariableMatrix[v].Plus,KMatrix[vrc]
VariableMatrix[v].Plus,K[1]
VariableMatrix[v].Substitute,var,K[1]
VariableMatrix[v].Substitute,var,Monomial[1]
VariableMatrix[v].Substitute,var,Polynomial[1]
VariableMatrix[v].Substitute,var,var
VariableMatrix[v].SubstituteAccordingTo,map
VariableMatrix[v].ToMonomialMatrix
VariableMatrix[v].ToPolynomialMatrix
VariableMatrix[v].Transpose
VariableVector[1].AsSimplifiedExpression
VariableVector[1].At,int,int
VariableVector[1].AtVec,int
VariableVector[1].Comparison,KVector[1],ConstrSense[m]
VariableVector[1].Comparison,MonomialVector[1],ConstrSense[m]
VariableVector[1].Comparison,PolynomialVector[1],ConstrSense[m]
VariableVector[1].Comparison,VariableVector[1],ConstrSense[m]
VariableVector[1].Comparison,VecDense[1],ConstrSense[m]
VariableVector[1].Copy
VariableVector[1].DerivativeWrt,var
VariableVector[1].Eq,KVector[1]
VariableVector[1].Eq,MonomialVector[1]
VariableVector[1].Eq,PolynomialVector[1]
VariableVector[1].Eq,VariableVector[1]
VariableVector[1].Eq,VecDense[1]
VariableVector[1].GreaterEq,KVector[1]
VariableVector[1].GreaterEq,MonomialVector[1]
VariableVector[1].GreaterEq,PolynomialVector[1]
VariableVector[1].GreaterEq,VariableVector[1]
VariableVector[1].GreaterEq,VecDense[1]
VariableVector[1].LessEq,KVector[1]
VariableVector[1].LessEq,MonomialVector[1]
VariableVector[1].LessEq,PolynomialVector[1]
VariableVector[1].LessEq,VariableVector[1]
VariableVector[1].LessEq,VecDense[1]
VariableVector[1].Minus,KVector[1]
VariableVector[1].Minus,KVector[v]
VariableVector[1].Minus,K[1]
VariableVector[1].Minus,MonomialVector[1]
VariableVector[1].Minus,MonomialVector[v]
VariableVector[1].Minus,Monomial[1]
VariableVector[1].Minus,PolynomialMatrix[v]
VariableVector[1].Minus,PolynomialVector[1]
VariableVector[1].Minus,PolynomialVector[v]
VariableVector[1].Minus,Polynomial[1]
VariableVector[1].Minus,VariableVector[1]
VariableVector[1].Minus,VariableVector[v]
VariableVector[1].Minus,Variable[1]
VariableVector[1].Minus,VecDense[v]
VariableVector[1].Minus,float64
VariableVector[1].Multiply,KVector[1]
VariableVector[1].Multiply,KVector[v]
VariableVector[1].Multiply,K[1]
VariableVector[1].Multiply,MonomialVector[1]
VariableVector[1].Multiply,MonomialVector[v]
VariableVector[1].Multiply,Monomial[1]
VariableVector[1].Multiply,PolynomialVector[1]
VariableVector[1].Multiply,Polynomial[1]
VariableVector[1].Multiply,VariableVector[1]
VariableVector[1].Multiply,VariableVector[v]
VariableVector[1].Multiply,Variable[1]
VariableVector[1].Multiply,float64
VariableVector[1].Plus,KVector[1]
VariableVector[1].Plus,KVector[v]
VariableVector[1].Plus,K[1]
VariableVector[1].Plus,MonomialVector[1]
VariableVector[1].Plus,MonomialVector[v]
VariableVector[1].Plus,Monomial[1]
VariableVector[1].Plus,PolynomialVector[1]
VariableVector[1].Plus,PolynomialVector[v]
VariableVector[1].Plus,Polynomial[1]
VariableVector[1].Plus,VariableVector[1]
VariableVector[1].Plus,VariableVector[v]
VariableVector[1].Plus,Variable[1]
VariableVector[1].Plus,VecDense[v]
VariableVector[1].Plus,float64
VariableVector[1].Plus,int
VariableVector[1].Power,int
VariableVector[1].Substitute,var,K[1]
VariableVector[1].Substitute,var,Monomial[1]
VariableVector[1].Substitute,var,Polynomial[1]
VariableVector[1].Substitute,var,var
VariableVector[1].SubstituteAccordingTo,map
VariableVector[1].ToMonomialVector
VariableVector[1].ToPolynomialVector
VariableVector[1].Transpose
VariableVector[v].AsSimplifiedExpression
VariableVector[v].At,int,int
VariableVector[v].AtVec,int
VariableVector[v].Comparison,*mat.VecDense[vrc],ConstrSense[m]
VariableVector[v].Comparison,KVector[vrc],ConstrSense[m]
VariableVector[v].Comparison,MonomialVector[vrc],ConstrSense[m]
VariableVector[v].Comparison,PolynomialVector[vrc],ConstrSense[m]
VariableVector[v].Comparison,VariableVector[vrc],ConstrSense[m]
VariableVector[v].Comparison,VecDense[vrc],ConstrSense[m]
VariableVector[v].Copy
VariableVector[v].DerivativeWrt,var
VariableVector[v].Eq,*mat.VecDense[vrc]
VariableVector[v].Eq,KVector[vrc]
VariableVector[v].Eq,MonomialVector[vrc]
VariableVector[v].Eq,PolynomialVector[vrc]
VariableVector[v].Eq,VariableVector[vrc]
VariableVector[v].Eq,VecDense[vrc]
VariableVector[v].GreaterEq,*mat.VecDense[vrc]
VariableVector[v].GreaterEq,KVector[vrc]
VariableVector[v].GreaterEq,MonomialVector[vrc]
VariableVector[v].GreaterEq,PolynomialVector[vrc]
VariableVector[v].GreaterEq,VariableVector[vrc]
VariableVector[v].GreaterEq,VecDense[vrc]
VariableVector[v].LessEq,*mat.VecDense[vrc]
VariableVector[v].LessEq,KVector[vrc]
VariableVector[v].LessEq,MonomialVector[vrc]
VariableVector[v].LessEq,PolynomialVector[vrc]
VariableVector[v].LessEq,VariableVector[vrc]
VariableVector[v].LessEq,VecDense[vrc]
VariableVector[v].Minus,*mat.VecDense[vrc]
VariableVector[v].Minus,KVector[1]
VariableVector[v].Minus,KVector[vrc]
VariableVector[v].Minus,K[1]
VariableVector[v].Minus,MonomialVector[1]
VariableVector[v].Minus,MonomialVector[vrc]
VariableVector[v].Minus,Monomial[1]
VariableVector[v].Minus,PolynomialMatrix[vrc]
VariableVector[v].Minus,PolynomialVector[1]
VariableVector[v].Minus,PolynomialVector[vrc]
VariableVector[v].Minus,Polynomial[1]
VariableVector[v].Minus,VariableVector[1]
VariableVector[v].Minus,VariableVector[vrc]
VariableVector[v].Minus,Variable[1]
VariableVector[v].Minus,VecDense[1]
VariableVector[v].Minus,VecDense[vrc]
VariableVector[v].Minus,float64
VariableVector[v].Multiply,KVector[1]
VariableVector[v].Multiply,K[1]
VariableVector[v].Multiply,MonomialVector[1]
VariableVector[v].Multiply,Monomial[1]
VariableVector[v].Multiply,PolynomialVector[1]
VariableVector[v].Multiply,Polynomial[1]
VariableVector[v].Multiply,VariableVector[1]
VariableVector[v].Multiply,Variable[1]
VariableVector[v].Multiply,float64
VariableVector[v].Plus,*mat.VecDense[vrc]
VariableVector[v].Plus,KVector[vrc]
VariableVector[v].Plus,K[1]
VariableVector[v].Plus,MonomialVector[vrc]
VariableVector[v].Plus,Monomial[1]
VariableVector[v].Plus,PolynomialVector[vrc]
VariableVector[v].Plus,Polynomial[1]
VariableVector[v].Plus,VariableVector[vrc]
VariableVector[v].Plus,Variable[1]
VariableVector[v].Plus,VecDense[vrc]
VariableVector[v].Plus,float64
VariableVector[v].Plus,int
VariableVector[v].Substitute,var,K[1]
VariableVector[v].Substitute,var,Monomial[1]
VariableVector[v].Substitute,var,Polynomial[1]
VariableVector[v].Substitute,var,var
VariableVector[v].SubstituteAccordingTo,map
VariableVector[v].ToMonomialVector
VariableVector[v].ToPolynomialVector
VariableVector[v].Transpose
Variable[1].AsSimplifiedExpression
Variable[1].At,int,int
Variable[1].Comparison,K[1],ConstrSense[m]
Variable[1].Comparison,Monomial[1],ConstrSense[m]
Variable[1].Comparison,Polynomial[1],ConstrSense[m]
Variable[1].Comparison,Variable[1],ConstrSense[m]
Variable[1].Comparison,float64,ConstrSense[m]
Variable[1].Comparison,int,ConstrSense[m]
Variable[1].DerivativeWrt,var
Variable[1].Eq,K[1]
Variable[1].Eq,Monomial[1]
Variable[1].Eq,Polynomial[1]
Variable[1].Eq,Variable[1]
Variable[1].Eq,float64
Variable[1].Eq,int
Variable[1].GreaterEq,K[1]
Variable[1].GreaterEq,Monomial[1]
Variable[1].GreaterEq,Polynomial[1]
Variable[1].GreaterEq,Variable[1]
Variable[1].GreaterEq,float64
Variable[1].GreaterEq,int
Variable[1].LessEq,K[1]
Variable[1].LessEq,Monomial[1]
Variable[1].LessEq,Polynomial[1]
Variable[1].LessEq,Variable[1]
Variable[1].LessEq,float64
Variable[1].LessEq,int
Variable[1].Minus,*mat.VecDense[1]
Variable[1].Minus,*mat.VecDense[v]
Variable[1].Minus,KVector[1]
Variable[1].Minus,KVector[v]
Variable[1].Minus,K[1]
Variable[1].Minus,MonomialVector[1]
Variable[1].Minus,MonomialVector[v]
Variable[1].Minus,Monomial[1]
Variable[1].Minus,PolynomialMatrix[v]
Variable[1].Minus,PolynomialVector[1]
Variable[1].Minus,PolynomialVector[v]
Variable[1].Minus,Polynomial[1]
Variable[1].Minus,VariableVector[1]
Variable[1].Minus,VariableVector[v]
Variable[1].Minus,Variable[1]
Variable[1].Minus,VecDense[1]
Variable[1].Minus,VecDense[v]
Variable[1].Minus,float64
Variable[1].Multiply,*mat.VecDense[1]
Variable[1].Multiply,*mat.VecDense[v]
Variable[1].Multiply,KVector[1]
Variable[1].Multiply,KVector[v]
Variable[1].Multiply,K[1]
Variable[1].Multiply,MonomialVector[1]
Variable[1].Multiply,MonomialVector[v]
Variable[1].Multiply,Monomial[1]
Variable[1].Multiply,PolynomialVector[1]
Variable[1].Multiply,PolynomialVector[v]
Variable[1].Multiply,Polynomial[1]
Variable[1].Multiply,VariableVector[1]
Variable[1].Multiply,VariableVector[v]
Variable[1].Multiply,Variable[1]
Variable[1].Multiply,VecDense[1]
Variable[1].Multiply,VecDense[v]
Variable[1].Multiply,float64
Variable[1].Multiply,int
Variable[1].Plus,*mat.VecDense[1]
Variable[1].Plus,*mat.VecDense[v]
Variable[1].Plus,KVector[1]
Variable[1].Plus,KVector[v]
Variable[1].Plus,K[1]
Variable[1].Plus,MonomialVector[1]
Variable[1].Plus,MonomialVector[v]
Variable[1].Plus,Monomial[1]
Variable[1].Plus,PolynomialVector[1]
Variable[1].Plus,PolynomialVector[v]
Variable[1].Plus,Polynomial[1]
Variable[1].Plus,VariableVector[1]
Variable[1].Plus,VariableVector[v]
Variable[1].Plus,Variable[1]
Variable[1].Plus,VecDense[1]
Variable[1].Plus,VecDense[v]
Variable[1].Plus,float64
Variable[1].Plus,int
Variable[1].Power,int
Variable[1].Substitute,var,K[1]
Variable[1].Substitute,var,Monomial[1]
Variable[1].Substitute,var,Polynomial[1]
Variable[1].Substitute,var,var
Variable[1].SubstituteAccordingTo,map
Variable[1].ToMonomial
Variable[1].ToPolynomial
Variable[1].Transpose
VectorConstraint(KVector[1],KVector[1]).AsSimplifiedConstraint
VectorConstraint(KVector[1],KVector[1]).AtVec,int
VectorConstraint(KVector[1],KVector[1]).SubstituteAccordingTo,map
VectorConstraint(KVector[1],VariableVector[1]).AsSimplifiedConstraint
VectorConstraint(KVector[1],VariableVector[1]).AtVec,int
VectorConstraint(KVector[v],KVector[v]).AsSimplifiedConstraint
VectorConstraint(KVector[v],KVector[v]).AtVec,int
VectorConstraint(KVector[v],KVector[v]).ConstrSense
VectorConstraint(KVector[v],KVector[v]).Left
VectorConstraint(KVector[v],KVector[v]).Right
VectorConstraint(KVector[v],KVector[v]).Substitute,var,K[1]
VectorConstraint(KVector[v],KVector[v]).Substitute,var,Monomial[1]
VectorConstraint(KVector[v],KVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(KVector[v],KVector[v]).Substitute,var,var
VectorConstraint(KVector[v],KVector[v]).SubstituteAccordingTo,map
VectorConstraint(KVector[v],MonomialVector[v]).AsSimplifiedConstraint
VectorConstraint(KVector[v],MonomialVector[v]).AtVec,int
VectorConstraint(KVector[v],MonomialVector[v]).ConstrSense
VectorConstraint(KVector[v],MonomialVector[v]).Right
VectorConstraint(KVector[v],MonomialVector[v]).Substitute,var,K[1]
VectorConstraint(KVector[v],MonomialVector[v]).Substitute,var,Monomial[1]
VectorConstraint(KVector[v],MonomialVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(KVector[v],MonomialVector[v]).Substitute,var,var
VectorConstraint(KVector[v],MonomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(KVector[v],PolynomialVector[v]).AsSimplifiedConstraint
VectorConstraint(KVector[v],PolynomialVector[v]).AtVec,int
VectorConstraint(KVector[v],PolynomialVector[v]).ConstrSense
VectorConstraint(KVector[v],PolynomialVector[v]).Left
VectorConstraint(KVector[v],PolynomialVector[v]).Right
VectorConstraint(KVector[v],PolynomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(KVector[v],VariableVector[v]).AsSimplifiedConstraint
VectorConstraint(KVector[v],VariableVector[v]).AtVec,int
VectorConstraint(KVector[v],VariableVector[v]).ConstrSense
VectorConstraint(KVector[v],VariableVector[v]).Left
VectorConstraint(KVector[v],VariableVector[v]).Right
VectorConstraint(KVector[v],VariableVector[v]).SubstituteAccordingTo,map
VectorConstraint(MonomialVector[1],KVector[1]).AsSimplifiedConstraint
VectorConstraint(MonomialVector[1],KVector[1]).AtVec,int
VectorConstraint(MonomialVector[v],KVector[v]).AsSimplifiedConstraint
VectorConstraint(MonomialVector[v],KVector[v]).AtVec,int
VectorConstraint(MonomialVector[v],KVector[v]).ConstrSense
VectorConstraint(MonomialVector[v],KVector[v]).Left
VectorConstraint(MonomialVector[v],KVector[v]).Right
VectorConstraint(MonomialVector[v],KVector[v]).Substitute,var,K[1]
VectorConstraint(MonomialVector[v],KVector[v]).Substitute,var,Monomial[1]
VectorConstraint(MonomialVector[v],KVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(MonomialVector[v],KVector[v]).Substitute,var,var
VectorConstraint(MonomialVector[v],KVector[v]).SubstituteAccordingTo,map
VectorConstraint(MonomialVector[v],MonomialVector[v]).AsSimplifiedConstraint
VectorConstraint(MonomialVector[v],MonomialVector[v]).AtVec,int
VectorConstraint(MonomialVector[v],MonomialVector[v]).ConstrSense
VectorConstraint(MonomialVector[v],MonomialVector[v]).Left
VectorConstraint(MonomialVector[v],MonomialVector[v]).Right
VectorConstraint(MonomialVector[v],MonomialVector[v]).Substitute,var,K[1]
VectorConstraint(MonomialVector[v],MonomialVector[v]).Substitute,var,Monomial[1]
VectorConstraint(MonomialVector[v],MonomialVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(MonomialVector[v],MonomialVector[v]).Substitute,var,var
VectorConstraint(MonomialVector[v],MonomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(MonomialVector[v],PolynomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(MonomialVector[v],VariableVector[v]).AsSimplifiedConstraint
VectorConstraint(MonomialVector[v],VariableVector[v]).AtVec,int
VectorConstraint(MonomialVector[v],VariableVector[v]).ConstrSense
VectorConstraint(MonomialVector[v],VariableVector[v]).Left
VectorConstraint(MonomialVector[v],VariableVector[v]).Right
VectorConstraint(MonomialVector[v],VariableVector[v]).Substitute,var,var
VectorConstraint(MonomialVector[v],VariableVector[v]).SubstituteAccordingTo,map
VectorConstraint(PolynomialVector[1],KVector[1]).AsSimplifiedConstraint
VectorConstraint(PolynomialVector[1],KVector[1]).AtVec,int
VectorConstraint(PolynomialVector[1],KVector[1]).SubstituteAccordingTo,map
VectorConstraint(PolynomialVector[v],KVector[v]).AsSimplifiedConstraint
VectorConstraint(PolynomialVector[v],KVector[v]).AtVec,int
VectorConstraint(PolynomialVector[v],KVector[v]).ConstrSense
VectorConstraint(PolynomialVector[v],KVector[v]).Left
VectorConstraint(PolynomialVector[v],KVector[v]).Right
VectorConstraint(PolynomialVector[v],KVector[v]).Substitute,var,K[1]
VectorConstraint(PolynomialVector[v],KVector[v]).Substitute,var,Monomial[1]
VectorConstraint(PolynomialVector[v],KVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(PolynomialVector[v],KVector[v]).Substitute,var,var
VectorConstraint(PolynomialVector[v],KVector[v]).SubstituteAccordingTo,map
VectorConstraint(PolynomialVector[v],MonomialVector[v]).AsSimplifiedConstraint
VectorConstraint(PolynomialVector[v],MonomialVector[v]).AtVec,int
VectorConstraint(PolynomialVector[v],MonomialVector[v]).ConstrSense
VectorConstraint(PolynomialVector[v],MonomialVector[v]).Left
VectorConstraint(PolynomialVector[v],MonomialVector[v]).Right
VectorConstraint(PolynomialVector[v],MonomialVector[v]).Substitute,var,K[1]
VectorConstraint(PolynomialVector[v],MonomialVector[v]).Substitute,var,Monomial[1]
VectorConstraint(PolynomialVector[v],MonomialVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(PolynomialVector[v],MonomialVector[v]).Substitute,var,var
VectorConstraint(PolynomialVector[v],MonomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).AsSimplifiedConstraint
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).AtVec,int
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).ConstrSense
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).Left
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).Right
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).Substitute,var,K[1]
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).Substitute,var,Monomial[1]
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).Substitute,var,var
VectorConstraint(PolynomialVector[v],PolynomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(PolynomialVector[v],VariableVector[v]).AsSimplifiedConstraint
VectorConstraint(PolynomialVector[v],VariableVector[v]).AtVec,int
VectorConstraint(PolynomialVector[v],VariableVector[v]).ConstrSense
VectorConstraint(PolynomialVector[v],VariableVector[v]).Left
VectorConstraint(PolynomialVector[v],VariableVector[v]).Right
VectorConstraint(PolynomialVector[v],VariableVector[v]).Substitute,var,var
VectorConstraint(PolynomialVector[v],VariableVector[v]).SubstituteAccordingTo,map
VectorConstraint(VariableVector[v],KVector[v]).AsSimplifiedConstraint
VectorConstraint(VariableVector[v],KVector[v]).AtVec,int
VectorConstraint(VariableVector[v],KVector[v]).ConstrSense
VectorConstraint(VariableVector[v],KVector[v]).Left
VectorConstraint(VariableVector[v],KVector[v]).Right
VectorConstraint(VariableVector[v],KVector[v]).Substitute,var,K[1]
VectorConstraint(VariableVector[v],KVector[v]).Substitute,var,Monomial[1]
VectorConstraint(VariableVector[v],KVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(VariableVector[v],KVector[v]).Substitute,var,var
VectorConstraint(VariableVector[v],KVector[v]).SubstituteAccordingTo,map
VectorConstraint(VariableVector[v],MonomialVector[v]).AsSimplifiedConstraint
VectorConstraint(VariableVector[v],MonomialVector[v]).AtVec,int
VectorConstraint(VariableVector[v],MonomialVector[v]).ConstrSense
VectorConstraint(VariableVector[v],MonomialVector[v]).Left
VectorConstraint(VariableVector[v],MonomialVector[v]).Right
VectorConstraint(VariableVector[v],MonomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(VariableVector[v],PolynomialVector[v]).AsSimplifiedConstraint
VectorConstraint(VariableVector[v],PolynomialVector[v]).AtVec,int
VectorConstraint(VariableVector[v],PolynomialVector[v]).ConstrSense
VectorConstraint(VariableVector[v],PolynomialVector[v]).Left
VectorConstraint(VariableVector[v],PolynomialVector[v]).Right
VectorConstraint(VariableVector[v],PolynomialVector[v]).Substitute,var,var
VectorConstraint(VariableVector[v],PolynomialVector[v]).SubstituteAccordingTo,map
VectorConstraint(VariableVector[v],VariableVector[v]).AsSimplifiedConstraint
VectorConstraint(VariableVector[v],VariableVector[v]).AtVec,int
VectorConstraint(VariableVector[v],VariableVector[v]).ConstrSense
VectorConstraint(VariableVector[v],VariableVector[v]).Left
VectorConstraint(VariableVector[v],VariableVector[v]).Right
VectorConstraint(VariableVector[v],VariableVector[v]).Substitute,var,Monomial[1]
VectorConstraint(VariableVector[v],VariableVector[v]).Substitute,var,Polynomial[1]
VectorConstraint(VariableVector[v],VariableVector[v]).SubstituteAccordingTo,map
get/KMatrix.From,*mat.Dense[m]
get/KMatrix.From,Dense[m]
get/KMatrix.From,Dense[r]
get/KMatrix.From,Dense[v]
get/KMatrix.From,KMatrix[1]
get/KMatrix.From,KMatrix[m]
get/KMatrix.From,KMatrix[r]
get/KMatrix.From,KMatrix[v]
get/KMatrix.From,[][]float64[m]
get/KMatrix.From,[][]float64[v]
get/KVector.From,*mat.VecDense[v]
get/KVector.From,KVector[1]
get/KVector.From,KVector[v]
get/KVector.From,VecDense[1]
get/KVector.From,VecDense[v]
get/KVector.From,[]float64[v]
get/KVector.From,[]int[1]
get/KVector.From,[]int[v]
symbolic.ConcretizeExpression,[][]scalar
symbolic.ConcretizeExpression,[]scalar
symbolic.ConcretizeMatrixExpression,[][]scalar
symbolic.ConcretizeVectorExpression,[]scalar
symbolic.DenseToKMatrix,Dense[m]
symbolic.DenseToKMatrix,Dense[r]
symbolic.DenseToKMatrix,Dense[v]
symbolic.HStack,KMatrix[1]
symbolic.HStack,KMatrix[m]
symbolic.HStack,KMatrix[m],KMatrix[mrc]
symbolic.HStack,KMatrix[m],KMatrix[mrcx]
symbolic.HStack,KMatrix[m],KVector[vrx]
symbolic.HStack,KMatrix[m],MonomialMatrix[mrcx]
symbolic.HStack,KMatrix[m],MonomialVector[vrx]
symbolic.HStack,KMatrix[m],PolynomialMatrix[mrcx]
symbolic.HStack,KMatrix[m],PolynomialVector[vrx]
symbolic.HStack,KMatrix[m],VariableMatrix[mrcx]
symbolic.HStack,KMatrix[m],VariableVector[vr]
symbolic.HStack,KMatrix[m],VariableVector[vrx]
symbolic.HStack,KMatrix[r]
symbolic.HStack,KMatrix[v]
symbolic.HStack,KVector[1]
symbolic.HStack,KVector[1],Monomial[1]
symbolic.HStack,KVector[1],Polynomial[1]
symbolic.HStack,KVector[1],Variable[1]
symbolic.HStack,KVector[v]
symbolic.HStack,KVector[v],KMatrix[mr]
symbolic.HStack,KVector[v],KVector[vrc]
symbolic.HStack,KVector[v],KVector[vrc],KVector[vrc]
symbolic.HStack,KVector[v],MonomialMatrix[mr]
symbolic.HStack,KVector[v],MonomialVector[vrc]
symbolic.HStack,KVector[v],PolynomialMatrix[mr]
symbolic.HStack,KVector[v],PolynomialVector[vrc]
symbolic.HStack,KVector[v],VariableMatrix[mr]
symbolic.HStack,KVector[v],VariableVector[vrc]
symbolic.HStack,K[1]
symbolic.HStack,K[1],K[1]
symbolic.HStack,K[1],K[1],K[1]
symbolic.HStack,K[1],K[1],Monomial[1]
symbolic.HStack,K[1],K[1],Polynomial[1]
symbolic.HStack,K[1],K[1],Variable[1]
symbolic.HStack,K[1],Monomial[1]
symbolic.HStack,K[1],Monomial[1],K[1]
symbolic.HStack,K[1],Monomial[1],Monomial[1]
symbolic.HStack,K[1],Monomial[1],Polynomial[1]
symbolic.HStack,K[1],Monomial[1],Variable[1]
symbolic.HStack,K[1],PolynomialVector[1]
symbolic.HStack,K[1],Polynomial[1]
symbolic.HStack,K[1],Polynomial[1],K[1]
symbolic.HStack,K[1],Polynomial[1],Monomial[1]
symbolic.HStack,K[1],Polynomial[1],Polynomial[1]
symbolic.HStack,K[1],Polynomial[1],Variable[1]
symbolic.HStack,K[1],Variable[1]
symbolic.HStack,K[1],Variable[1],K[1]
symbolic.HStack,K[1],Variable[1],Monomial[1]
symbolic.HStack,K[1],Variable[1],Polynomial[1]
symbolic.HStack,K[1],Variable[1],Variable[1]
symbolic.HStack,MonomialMatrix[m]
symbolic.HStack,MonomialMatrix[m],KMatrix[mrcx]
symbolic.HStack,MonomialMatrix[m],KVector[vrx]
symbolic.HStack,MonomialMatrix[m],MonomialMatrix[mrc]
symbolic.HStack,MonomialMatrix[m],MonomialMatrix[mrcx]
symbolic.HStack,MonomialMatrix[m],MonomialVector[vr]
symbolic.HStack,MonomialMatrix[m],MonomialVector[vrx]
symbolic.HStack,MonomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.HStack,MonomialMatrix[m],PolynomialVector[vr]
symbolic.HStack,MonomialMatrix[m],PolynomialVector[vrx]
symbolic.HStack,MonomialMatrix[m],VariableVector[vr]
symbolic.HStack,MonomialMatrix[m],VariableVector[vrx]
symbolic.HStack,MonomialMatrix[r]
symbolic.HStack,MonomialMatrix[v]
symbolic.HStack,MonomialVector[1]
symbolic.HStack,MonomialVector[1],Monomial[1]
symbolic.HStack,MonomialVector[1],Polynomial[1]
symbolic.HStack,MonomialVector[v]
symbolic.HStack,MonomialVector[v],KMatrix[mr]
symbolic.HStack,MonomialVector[v],KVector[vrc]
symbolic.HStack,MonomialVector[v],MonomialMatrix[mr]
symbolic.HStack,MonomialVector[v],MonomialVector[vrc]
symbolic.HStack,MonomialVector[v],MonomialVector[vrc],MonomialVector[vrc]
symbolic.HStack,MonomialVector[v],PolynomialMatrix[mr]
symbolic.HStack,MonomialVector[v],PolynomialMatrix[mr],PolynomialMatrix[mr]
symbolic.HStack,MonomialVector[v],PolynomialVector[vrc]
symbolic.HStack,MonomialVector[v],PolynomialVector[vrc],MonomialVector[vrc]
symbolic.HStack,MonomialVector[v],VariableMatrix[mr]
symbolic.HStack,MonomialVector[v],VariableVector[vrc]
symbolic.HStack,Monomial[1]
symbolic.HStack,Monomial[1],KVector[1]
symbolic.HStack,Monomial[1],K[1]
symbolic.HStack,Monomial[1],K[1],K[1]
symbolic.HStack,Monomial[1],K[1],Monomial[1]
symbolic.HStack,Monomial[1],K[1],Polynomial[1]
symbolic.HStack,Monomial[1],K[1],Variable[1]
symbolic.HStack,Monomial[1],MonomialVector[1]
symbolic.HStack,Monomial[1],Monomial[1]
symbolic.HStack,Monomial[1],Monomial[1],K[1]
symbolic.HStack,Monomial[1],Monomial[1],Monomial[1]
symbolic.HStack,Monomial[1],Monomial[1],Polynomial[1]
symbolic.HStack,Monomial[1],Monomial[1],Variable[1]
symbolic.HStack,Monomial[1],PolynomialMatrix[r]
symbolic.HStack,Monomial[1],PolynomialVector[1]
symbolic.HStack,Monomial[1],Polynomial[1]
symbolic.HStack,Monomial[1],Polynomial[1],K[1]
symbolic.HStack,Monomial[1],Polynomial[1],Monomial[1]
symbolic.HStack,Monomial[1],Polynomial[1],Polynomial[1]
symbolic.HStack,Monomial[1],Polynomial[1],Variable[1]
symbolic.HStack,Monomial[1],VariableVector[1]
symbolic.HStack,Monomial[1],Variable[1]
symbolic.HStack,Monomial[1],Variable[1],K[1]
symbolic.HStack,Monomial[1],Variable[1],Monomial[1]
symbolic.HStack,Monomial[1],Variable[1],Polynomial[1]
symbolic.HStack,Monomial[1],Variable[1],Variable[1]
symbolic.HStack,PolynomialMatrix[m]
symbolic.HStack,PolynomialMatrix[m],KMatrix[mrcx]
symbolic.HStack,PolynomialMatrix[m],KVector[vr]
symbolic.HStack,PolynomialMatrix[m],KVector[vrx]
symbolic.HStack,PolynomialMatrix[m],MonomialMatrix[mrcx]
symbolic.HStack,PolynomialMatrix[m],MonomialVector[vr]
symbolic.HStack,PolynomialMatrix[m],MonomialVector[vrx]
symbolic.HStack,PolynomialMatrix[m],PolynomialMatrix[mrc]
symbolic.HStack,PolynomialMatrix[m],PolynomialMatrix[mrc],PolynomialMatrix[mrc]
symbolic.HStack,PolynomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.HStack,PolynomialMatrix[m],PolynomialMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.HStack,PolynomialMatrix[m],PolynomialMatrix[mrcx],PolynomialVector[vrx]
symbolic.HStack,PolynomialMatrix[m],PolynomialVector[vr]
symbolic.HStack,PolynomialMatrix[m],PolynomialVector[vrx]
symbolic.HStack,PolynomialMatrix[m],PolynomialVector[vrx],PolynomialMatrix[mrcx]
symbolic.HStack,PolynomialMatrix[m],VariableMatrix[mrcx]
symbolic.HStack,PolynomialMatrix[m],VariableVector[vr]
symbolic.HStack,PolynomialMatrix[m],VariableVector[vrx]
symbolic.HStack,PolynomialMatrix[r]
symbolic.HStack,PolynomialMatrix[r],Monomial[1]
symbolic.HStack,PolynomialMatrix[r],Polynomial[1]
symbolic.HStack,PolynomialMatrix[r],Variable[1]
symbolic.HStack,PolynomialMatrix[v]
symbolic.HStack,PolynomialMatrix[v],PolynomialMatrix[vrc]
symbolic.HStack,PolynomialVector[1]
symbolic.HStack,PolynomialVector[1],Monomial[1]
symbolic.HStack,PolynomialVector[1],Polynomial[1]
symbolic.HStack,PolynomialVector[1],Variable[1]
symbolic.HStack,PolynomialVector[v]
symbolic.HStack,PolynomialVector[v],KMatrix[mr]
symbolic.HStack,PolynomialVector[v],KVector[vrc]
symbolic.HStack,PolynomialVector[v],KVector[vrc],PolynomialVector[vrc]
symbolic.HStack,PolynomialVector[v],MonomialMatrix[mr]
symbolic.HStack,PolynomialVector[v],MonomialVector[vrc]
symbolic.HStack,PolynomialVector[v],MonomialVector[vrc],PolynomialVector[vrc]
symbolic.HStack,PolynomialVector[v],PolynomialMatrix[mr]
symbolic.HStack,PolynomialVector[v],PolynomialMatrix[mr],PolynomialMatrix[mr]
symbolic.HStack,PolynomialVector[v],PolynomialMatrix[mr],PolynomialVector[vrc]
symbolic.HStack,PolynomialVector[v],PolynomialVector[vrc]
symbolic.HStack,PolynomialVector[v],PolynomialVector[vrc],MonomialVector[vrc]
symbolic.HStack,PolynomialVector[v],PolynomialVector[vrc],PolynomialMatrix[mr]
symbolic.HStack,PolynomialVector[v],PolynomialVector[vrc],PolynomialVector[vrc]
symbolic.HStack,PolynomialVector[v],PolynomialVector[vrc],VariableVector[vrc]
symbolic.HStack,PolynomialVector[v],VariableMatrix[mr]
symbolic.HStack,PolynomialVector[v],VariableVector[vrc]
symbolic.HStack,Polynomial[1]
symbolic.HStack,Polynomial[1],KVector[1]
symbolic.HStack,Polynomial[1],K[1]
symbolic.HStack,Polynomial[1],K[1],K[1]
symbolic.HStack,Polynomial[1],K[1],Monomial[1]
symbolic.HStack,Polynomial[1],K[1],Polynomial[1]
symbolic.HStack,Polynomial[1],K[1],Variable[1]
symbolic.HStack,Polynomial[1],MonomialVector[1]
symbolic.HStack,Polynomial[1],Monomial[1]
symbolic.HStack,Polynomial[1],Monomial[1],K[1]
symbolic.HStack,Polynomial[1],Monomial[1],Monomial[1]
symbolic.HStack,Polynomial[1],Monomial[1],Polynomial[1]
symbolic.HStack,Polynomial[1],Monomial[1],Variable[1]
symbolic.HStack,Polynomial[1],PolynomialMatrix[r]
symbolic.HStack,Polynomial[1],PolynomialVector[1]
symbolic.HStack,Polynomial[1],Polynomial[1]
symbolic.HStack,Polynomial[1],Polynomial[1],K[1]
symbolic.HStack,Polynomial[1],Polynomial[1],Monomial[1]
symbolic.HStack,Polynomial[1],Polynomial[1],Polynomial[1]
symbolic.HStack,Polynomial[1],Polynomial[1],Variable[1]
symbolic.HStack,Polynomial[1],VariableVector[1]
symbolic.HStack,Polynomial[1],Variable[1]
symbolic.HStack,Polynomial[1],Variable[1],K[1]
symbolic.HStack,Polynomial[1],Variable[1],Monomial[1]
symbolic.HStack,Polynomial[1],Variable[1],Polynomial[1]
symbolic.HStack,Polynomial[1],Variable[1],Variable[1]
symbolic.HStack,VariableMatrix[m]
symbolic.HStack,VariableMatrix[m],KMatrix[mrcx]
symbolic.HStack,VariableMatrix[m],KVector[vrx]
symbolic.HStack,VariableMatrix[m],MonomialVector[vrx]
symbolic.HStack,VariableMatrix[m],PolynomialMatrix[mrcx]
symbolic.HStack,VariableMatrix[m],PolynomialVector[vrx]
symbolic.HStack,VariableMatrix[m],VariableMatrix[mrcx]
symbolic.HStack,VariableMatrix[m],VariableVector[vrx]
symbolic.HStack,VariableMatrix[r]
symbolic.HStack,VariableMatrix[v]
symbolic.HStack,VariableVector[1]
symbolic.HStack,VariableVector[1],Monomial[1]
symbolic.HStack,VariableVector[1],Polynomial[1]
symbolic.HStack,VariableVector[1],Variable[1]
symbolic.HStack,VariableVector[v]
symbolic.HStack,VariableVector[v],KMatrix[mr]
symbolic.HStack,VariableVector[v],KVector[vrc]
symbolic.HStack,VariableVector[v],MonomialMatrix[mr]
symbolic.HStack,VariableVector[v],MonomialVector[vrc]
symbolic.HStack,VariableVector[v],PolynomialMatrix[mr]
symbolic.HStack,VariableVector[v],PolynomialVector[vrc]
symbolic.HStack,VariableVector[v],PolynomialVector[vrc],PolynomialVector[vrc]
symbolic.HStack,VariableVector[v],VariableMatrix[mr]
symbolic.HStack,VariableVector[v],VariableVector[vrc]
symbolic.HStack,VariableVector[v],VariableVector[vrc],VariableVector[vrc]
symbolic.HStack,Variable[1]
symbolic.HStack,Variable[1],KVector[1]
symbolic.HStack,Variable[1],K[1]
symbolic.HStack,Variable[1],K[1],K[1]
symbolic.HStack,Variable[1],K[1],Monomial[1]
symbolic.HStack,Variable[1],K[1],Polynomial[1]
symbolic.HStack,Variable[1],K[1],Variable[1]
symbolic.HStack,Variable[1],MonomialVector[1]
symbolic.HStack,Variable[1],Monomial[1]
symbolic.HStack,Variable[1],Monomial[1],K[1]
symbolic.HStack,Variable[1],Monomial[1],Monomial[1]
symbolic.HStack,Variable[1],Monomial[1],Polynomial[1]
symbolic.HStack,Variable[1],Monomial[1],Variable[1]
symbolic.HStack,Variable[1],PolynomialVector[1]
symbolic.HStack,Variable[1],Polynomial[1]
symbolic.HStack,Variable[1],Polynomial[1],K[1]
symbolic.HStack,Variable[1],Polynomial[1],Monomial[1]
symbolic.HStack,Variable[1],Polynomial[1],Polynomial[1]
symbolic.HStack,Variable[1],Polynomial[1],Variable[1]
symbolic.HStack,Variable[1],VariableVector[1]
symbolic.HStack,Variable[1],Variable[1]
symbolic.HStack,Variable[1],Variable[1],K[1]
symbolic.HStack,Variable[1],Variable[1],Monomial[1]
symbolic.HStack,Variable[1],Variable[1],Polynomial[1]
symbolic.HStack,Variable[1],Variable[1],Variable[1]
symbolic.MatrixMultiplyTemplate,KMatrix[1],KMatrix[1]
symbolic.MatrixMultiplyTemplate,KMatrix[m],KMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],KMatrix[mrx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],KMatrix[mx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],KMatrix[vrx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],MonomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],MonomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],MonomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],MonomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],PolynomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],PolynomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],PolynomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],VariableMatrix[mcx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],VariableMatrix[mrx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],VariableMatrix[mx]
symbolic.MatrixMultiplyTemplate,KMatrix[m],VariableMatrix[vrx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],KMatrix[mcx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],KMatrix[vx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],MonomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],MonomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],PolynomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],VariableMatrix[mcx]
symbolic.MatrixMultiplyTemplate,KMatrix[r],VariableMatrix[vx]
symbolic.MatrixMultiplyTemplate,KMatrix[v],KMatrix[1]
symbolic.MatrixMultiplyTemplate,KMatrix[v],KMatrix[rx]
symbolic.MatrixMultiplyTemplate,KMatrix[v],MonomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,KMatrix[v],PolynomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,KMatrix[v],VariableMatrix[rx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],KMatrix[mcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],KMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],KMatrix[mrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],KMatrix[mx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],KMatrix[vrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],MonomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],MonomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],MonomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],PolynomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],PolynomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],PolynomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],VariableMatrix[mcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],VariableMatrix[mrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],VariableMatrix[mx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[m],VariableMatrix[vrx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],KMatrix[mcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],KMatrix[vx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],MonomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],MonomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],PolynomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],PolynomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],VariableMatrix[mcx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[r],VariableMatrix[vx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[v],KMatrix[1]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[v],KMatrix[rx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[v],MonomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[v],PolynomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,MonomialMatrix[v],VariableMatrix[rx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],KMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],KMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],KMatrix[mrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],KMatrix[mx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],KMatrix[vrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],MonomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],MonomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],MonomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],MonomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],PolynomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],PolynomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],PolynomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],VariableMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],VariableMatrix[mrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],VariableMatrix[mx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[m],VariableMatrix[vrx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],KMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],KMatrix[mx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],KMatrix[vx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],MonomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],MonomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],MonomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],PolynomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],PolynomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],VariableMatrix[mcx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[r],VariableMatrix[vx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[v],KMatrix[1]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[v],KMatrix[rx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[v],MonomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[v],PolynomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,PolynomialMatrix[v],VariableMatrix[rx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],KMatrix[mcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],KMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],KMatrix[mrx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],KMatrix[mx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],KMatrix[vrx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],MonomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],MonomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],MonomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],MonomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],PolynomialMatrix[mrx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],PolynomialMatrix[mx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],PolynomialMatrix[vrx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],VariableMatrix[mx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[m],VariableMatrix[vrx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[r],KMatrix[mcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[r],KMatrix[vx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[r],MonomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[r],MonomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[r],PolynomialMatrix[mcx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[r],PolynomialMatrix[vx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[r],VariableMatrix[vx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[v],KMatrix[rx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[v],MonomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[v],PolynomialMatrix[rx]
symbolic.MatrixMultiplyTemplate,VariableMatrix[v],VariableMatrix[rx]
symbolic.MatrixPlusTemplate,KMatrix[1],KMatrix[1]
symbolic.MatrixPlusTemplate,KMatrix[m],KMatrix[mrc]
symbolic.MatrixPlusTemplate,KMatrix[m],KMatrix[mrcx]
symbolic.MatrixPlusTemplate,KMatrix[m],MonomialMatrix[mrc]
symbolic.MatrixPlusTemplate,KMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,KMatrix[m],PolynomialMatrix[mrc]
symbolic.MatrixPlusTemplate,KMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,KMatrix[m],VariableMatrix[mrc]
symbolic.MatrixPlusTemplate,KMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixPlusTemplate,KMatrix[r],KMatrix[rrc]
symbolic.MatrixPlusTemplate,KMatrix[r],MonomialMatrix[rrc]
symbolic.MatrixPlusTemplate,KMatrix[r],PolynomialMatrix[rrc]
symbolic.MatrixPlusTemplate,KMatrix[r],VariableMatrix[rrc]
symbolic.MatrixPlusTemplate,KMatrix[v],KMatrix[vrc]
symbolic.MatrixPlusTemplate,KMatrix[v],MonomialMatrix[vrc]
symbolic.MatrixPlusTemplate,KMatrix[v],PolynomialMatrix[vrc]
symbolic.MatrixPlusTemplate,KMatrix[v],VariableMatrix[vrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],KMatrix[mrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],KMatrix[mrcx]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],MonomialMatrix[mrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],PolynomialMatrix[mrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],VariableMatrix[mrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixPlusTemplate,MonomialMatrix[r],KMatrix[rrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[r],MonomialMatrix[rrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[r],PolynomialMatrix[rrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[r],VariableMatrix[rrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[v],KMatrix[vrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[v],MonomialMatrix[vrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[v],PolynomialMatrix[vrc]
symbolic.MatrixPlusTemplate,MonomialMatrix[v],VariableMatrix[vrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],KMatrix[mrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],KMatrix[mrcx]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],MonomialMatrix[mrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],PolynomialMatrix[mrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],VariableMatrix[mrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixPlusTemplate,PolynomialMatrix[r],KMatrix[rrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[r],MonomialMatrix[rrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[r],PolynomialMatrix[rrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[r],VariableMatrix[rrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[v],KMatrix[vrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[v],MonomialMatrix[vrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[v],PolynomialMatrix[vrc]
symbolic.MatrixPlusTemplate,PolynomialMatrix[v],VariableMatrix[vrc]
symbolic.MatrixPlusTemplate,VariableMatrix[m],KMatrix[mrc]
symbolic.MatrixPlusTemplate,VariableMatrix[m],KMatrix[mrcx]
symbolic.MatrixPlusTemplate,VariableMatrix[m],MonomialMatrix[mrc]
symbolic.MatrixPlusTemplate,VariableMatrix[m],MonomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,VariableMatrix[m],PolynomialMatrix[mrc]
symbolic.MatrixPlusTemplate,VariableMatrix[m],PolynomialMatrix[mrcx]
symbolic.MatrixPlusTemplate,VariableMatrix[m],VariableMatrix[mrc]
symbolic.MatrixPlusTemplate,VariableMatrix[m],VariableMatrix[mrcx]
symbolic.MatrixPlusTemplate,VariableMatrix[r],KMatrix[rrc]
symbolic.MatrixPlusTemplate,VariableMatrix[r],MonomialMatrix[rrc]
symbolic.MatrixPlusTemplate,VariableMatrix[r],PolynomialMatrix[rrc]
symbolic.MatrixPlusTemplate,VariableMatrix[r],VariableMatrix[rrc]
symbolic.MatrixPlusTemplate,VariableMatrix[v],KMatrix[vrc]
symbolic.MatrixPlusTemplate,VariableMatrix[v],MonomialMatrix[vrc]
symbolic.MatrixPlusTemplate,VariableMatrix[v],PolynomialMatrix[vrc]
symbolic.MatrixPlusTemplate,VariableMatrix[v],VariableMatrix[vrc]
symbolic.MatrixPowerTemplate,KMatrix[1],int
symbolic.MatrixPowerTemplate,KMatrix[m],int
symbolic.MatrixPowerTemplate,MonomialMatrix[1],int
symbolic.MatrixPowerTemplate,MonomialMatrix[m],int
symbolic.MatrixPowerTemplate,PolynomialMatrix[1],int
symbolic.MatrixPowerTemplate,PolynomialMatrix[m],int
symbolic.MatrixPowerTemplate,VariableMatrix[1],int
symbolic.MatrixPowerTemplate,VariableMatrix[m],int
symbolic.MatrixSubstituteTemplate,KMatrix[1],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,KMatrix[1],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[1],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[1],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,KMatrix[m],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,KMatrix[m],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[m],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[m],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,KMatrix[r],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,KMatrix[r],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[r],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[r],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,KMatrix[v],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,KMatrix[v],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[v],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,KMatrix[v],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[1],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[1],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[1],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[1],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[m],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[m],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[m],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[m],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[r],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[r],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[r],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[r],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[v],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[v],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[v],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,MonomialMatrix[v],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[1],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[1],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[1],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[m],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[m],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[m],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[m],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[r],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[r],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[r],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[r],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[v],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[v],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[v],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,PolynomialMatrix[v],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[1],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[1],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[1],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[m],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[m],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[m],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[m],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[r],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[r],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[r],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[r],Variable[1],Variable[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[v],Variable[1],K[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[v],Variable[1],Monomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[v],Variable[1],Polynomial[1]
symbolic.MatrixSubstituteTemplate,VariableMatrix[v],Variable[1],Variable[1]
symbolic.Minus,KMatrix[m],KMatrix[mrc]
symbolic.Minus,KMatrix[m],KMatrix[mrcx]
symbolic.Minus,KMatrix[m],K[1]
symbolic.Minus,KMatrix[m],MonomialMatrix[mrcx]
symbolic.Minus,KMatrix[m],PolynomialMatrix[mrc]
symbolic.Minus,KMatrix[m],PolynomialMatrix[mrcx]
symbolic.Minus,KMatrix[m],VariableMatrix[mrcx]
symbolic.Minus,KMatrix[r],K[1]
symbolic.Minus,KMatrix[v],KMatrix[vrc]
symbolic.Minus,KMatrix[v],K[1]
symbolic.Minus,KVector[1],KVector[1]
symbolic.Minus,KVector[1],K[1]
symbolic.Minus,KVector[1],Monomial[1]
symbolic.Minus,KVector[1],PolynomialVector[v]
symbolic.Minus,KVector[1],Polynomial[1]
symbolic.Minus,KVector[1],Variable[1]
symbolic.Minus,KVector[v],KVector[vrc]
symbolic.Minus,KVector[v],K[1]
symbolic.Minus,KVector[v],MonomialVector[vrc]
symbolic.Minus,KVector[v],Monomial[1]
symbolic.Minus,KVector[v],PolynomialVector[1]
symbolic.Minus,KVector[v],PolynomialVector[vrc]
symbolic.Minus,KVector[v],Polynomial[1]
symbolic.Minus,KVector[v],VariableVector[1]
symbolic.Minus,KVector[v],VariableVector[vrc]
symbolic.Minus,KVector[v],Variable[1]
symbolic.Minus,K[1],KMatrix[m]
symbolic.Minus,K[1],KMatrix[v]
symbolic.Minus,K[1],KVector[1]
symbolic.Minus,K[1],KVector[v]
symbolic.Minus,K[1],K[1]
symbolic.Minus,K[1],MonomialMatrix[m]
symbolic.Minus,K[1],MonomialMatrix[r]
symbolic.Minus,K[1],MonomialMatrix[v]
symbolic.Minus,K[1],MonomialVector[1]
symbolic.Minus,K[1],MonomialVector[v]
symbolic.Minus,K[1],Monomial[1]
symbolic.Minus,K[1],PolynomialMatrix[m]
symbolic.Minus,K[1],PolynomialMatrix[r]
symbolic.Minus,K[1],PolynomialMatrix[v]
symbolic.Minus,K[1],PolynomialVector[1]
symbolic.Minus,K[1],PolynomialVector[v]
symbolic.Minus,K[1],Polynomial[1]
symbolic.Minus,K[1],VariableMatrix[m]
symbolic.Minus,K[1],VariableVector[1]
symbolic.Minus,K[1],VariableVector[v]
symbolic.Minus,K[1],Variable[1]
symbolic.Minus,MonomialMatrix[m],KMatrix[mrcx]
symbolic.Minus,MonomialMatrix[m],K[1]
symbolic.Minus,MonomialMatrix[m],MonomialMatrix[mrc]
symbolic.Minus,MonomialMatrix[m],MonomialMatrix[mrcx]
symbolic.Minus,MonomialMatrix[m],Monomial[1]
symbolic.Minus,MonomialMatrix[m],PolynomialMatrix[mrc]
symbolic.Minus,MonomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.Minus,MonomialMatrix[m],PolynomialVector[1]
symbolic.Minus,MonomialMatrix[m],Polynomial[1]
symbolic.Minus,MonomialMatrix[m],VariableMatrix[mrcx]
symbolic.Minus,MonomialMatrix[m],Variable[1]
symbolic.Minus,MonomialMatrix[r],K[1]
symbolic.Minus,MonomialMatrix[r],MonomialMatrix[rrc]
symbolic.Minus,MonomialMatrix[r],Monomial[1]
symbolic.Minus,MonomialMatrix[r],Polynomial[1]
symbolic.Minus,MonomialMatrix[r],Variable[1]
symbolic.Minus,MonomialMatrix[v],K[1]
symbolic.Minus,MonomialMatrix[v],Monomial[1]
symbolic.Minus,MonomialMatrix[v],Polynomial[1]
symbolic.Minus,MonomialMatrix[v],Variable[1]
symbolic.Minus,MonomialVector[1],Monomial[1]
symbolic.Minus,MonomialVector[1],Polynomial[1]
symbolic.Minus,MonomialVector[1],Variable[1]
symbolic.Minus,MonomialVector[v],KVector[1]
symbolic.Minus,MonomialVector[v],KVector[vrc]
symbolic.Minus,MonomialVector[v],K[1]
symbolic.Minus,MonomialVector[v],MonomialVector[vrc]
symbolic.Minus,MonomialVector[v],Monomial[1]
symbolic.Minus,MonomialVector[v],PolynomialVector[1]
symbolic.Minus,MonomialVector[v],PolynomialVector[vrc]
symbolic.Minus,MonomialVector[v],Polynomial[1]
symbolic.Minus,MonomialVector[v],VariableVector[1]
symbolic.Minus,MonomialVector[v],VariableVector[vrc]
symbolic.Minus,MonomialVector[v],Variable[1]
symbolic.Minus,Monomial[1],KVector[1]
symbolic.Minus,Monomial[1],K[1]
symbolic.Minus,Monomial[1],MonomialVector[1]
symbolic.Minus,Monomial[1],Monomial[1]
symbolic.Minus,Monomial[1],PolynomialVector[1]
symbolic.Minus,Monomial[1],Polynomial[1]
symbolic.Minus,Monomial[1],VariableVector[1]
symbolic.Minus,Monomial[1],Variable[1]
symbolic.Minus,PolynomialMatrix[m],KMatrix[mrc]
symbolic.Minus,PolynomialMatrix[m],KMatrix[mrcx]
symbolic.Minus,PolynomialMatrix[m],KVector[1]
symbolic.Minus,PolynomialMatrix[m],K[1]
symbolic.Minus,PolynomialMatrix[m],MonomialMatrix[mrc]
symbolic.Minus,PolynomialMatrix[m],MonomialMatrix[mrcx]
symbolic.Minus,PolynomialMatrix[m],Monomial[1]
symbolic.Minus,PolynomialMatrix[m],PolynomialMatrix[mrc]
symbolic.Minus,PolynomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.Minus,PolynomialMatrix[m],PolynomialVector[1]
symbolic.Minus,PolynomialMatrix[m],Polynomial[1]
symbolic.Minus,PolynomialMatrix[m],VariableMatrix[mrc]
symbolic.Minus,PolynomialMatrix[m],VariableMatrix[mrcx]
symbolic.Minus,PolynomialMatrix[m],VariableVector[1]
symbolic.Minus,PolynomialMatrix[m],Variable[1]
symbolic.Minus,PolynomialMatrix[r],K[1]
symbolic.Minus,PolynomialMatrix[r],Monomial[1]
symbolic.Minus,PolynomialMatrix[r],PolynomialMatrix[rrc]
symbolic.Minus,PolynomialMatrix[r],Polynomial[1]
symbolic.Minus,PolynomialMatrix[r],Variable[1]
symbolic.Minus,PolynomialMatrix[v],K[1]
symbolic.Minus,PolynomialMatrix[v],Monomial[1]
symbolic.Minus,PolynomialMatrix[v],Polynomial[1]
symbolic.Minus,PolynomialMatrix[v],Variable[1]
symbolic.Minus,PolynomialVector[1],K[1]
symbolic.Minus,PolynomialVector[1],Monomial[1]
symbolic.Minus,PolynomialVector[1],PolynomialVector[1]
symbolic.Minus,PolynomialVector[1],PolynomialVector[v]
symbolic.Minus,PolynomialVector[1],Polynomial[1]
symbolic.Minus,PolynomialVector[1],VariableVector[v]
symbolic.Minus,PolynomialVector[1],Variable[1]
symbolic.Minus,PolynomialVector[v],KVector[1]
symbolic.Minus,PolynomialVector[v],KVector[vrc]
symbolic.Minus,PolynomialVector[v],K[1]
symbolic.Minus,PolynomialVector[v],MonomialVector[vrc]
symbolic.Minus,PolynomialVector[v],Monomial[1]
symbolic.Minus,PolynomialVector[v],PolynomialMatrix[vrc]
symbolic.Minus,PolynomialVector[v],PolynomialVector[1]
symbolic.Minus,PolynomialVector[v],PolynomialVector[vrc]
symbolic.Minus,PolynomialVector[v],Polynomial[1]
symbolic.Minus,PolynomialVector[v],VariableVector[1]
symbolic.Minus,PolynomialVector[v],VariableVector[vrc]
symbolic.Minus,PolynomialVector[v],Variable[1]
symbolic.Minus,Polynomial[1],KMatrix[m]
symbolic.Minus,Polynomial[1],KMatrix[r]
symbolic.Minus,Polynomial[1],KMatrix[v]
symbolic.Minus,Polynomial[1],KVector[1]
symbolic.Minus,Polynomial[1],KVector[v]
symbolic.Minus,Polynomial[1],K[1]
symbolic.Minus,Polynomial[1],MonomialMatrix[m]
symbolic.Minus,Polynomial[1],MonomialMatrix[r]
symbolic.Minus,Polynomial[1],MonomialMatrix[v]
symbolic.Minus,Polynomial[1],MonomialVector[1]
symbolic.Minus,Polynomial[1],MonomialVector[v]
symbolic.Minus,Polynomial[1],Monomial[1]
symbolic.Minus,Polynomial[1],PolynomialMatrix[m]
symbolic.Minus,Polynomial[1],PolynomialMatrix[r]
symbolic.Minus,Polynomial[1],PolynomialMatrix[v]
symbolic.Minus,Polynomial[1],PolynomialVector[1]
symbolic.Minus,Polynomial[1],PolynomialVector[v]
symbolic.Minus,Polynomial[1],Polynomial[1]
symbolic.Minus,Polynomial[1],VariableMatrix[m]
symbolic.Minus,Polynomial[1],VariableMatrix[r]
symbolic.Minus,Polynomial[1],VariableMatrix[v]
symbolic.Minus,Polynomial[1],VariableVector[1]
symbolic.Minus,Polynomial[1],VariableVector[v]
symbolic.Minus,Polynomial[1],Variable[1]
symbolic.Minus,VariableMatrix[m],KMatrix[mrcx]
symbolic.Minus,VariableMatrix[m],K[1]
symbolic.Minus,VariableMatrix[v],K[1]
symbolic.Minus,VariableVector[1],K[1]
symbolic.Minus,VariableVector[1],MonomialVector[v]
symbolic.Minus,VariableVector[1],Monomial[1]
symbolic.Minus,VariableVector[1],PolynomialVector[v]
symbolic.Minus,VariableVector[1],Polynomial[1]
symbolic.Minus,VariableVector[1],VariableVector[v]
symbolic.Minus,VariableVector[1],Variable[1]
symbolic.Minus,VariableVector[v],KVector[1]
symbolic.Minus,VariableVector[v],KVector[vrc]
symbolic.Minus,VariableVector[v],K[1]
symbolic.Minus,VariableVector[v],MonomialVector[1]
symbolic.Minus,VariableVector[v],MonomialVector[vrc]
symbolic.Minus,VariableVector[v],Monomial[1]
symbolic.Minus,VariableVector[v],PolynomialMatrix[vrc]
symbolic.Minus,VariableVector[v],PolynomialVector[1]
symbolic.Minus,VariableVector[v],PolynomialVector[vrc]
symbolic.Minus,VariableVector[v],Polynomial[1]
symbolic.Minus,VariableVector[v],VariableVector[1]
symbolic.Minus,VariableVector[v],VariableVector[vrc]
symbolic.Minus,VariableVector[v],Variable[1]
symbolic.Minus,Variable[1],KVector[1]
symbolic.Minus,Variable[1],KVector[v]
symbolic.Minus,Variable[1],K[1]
symbolic.Minus,Variable[1],MonomialVector[1]
symbolic.Minus,Variable[1],MonomialVector[v]
symbolic.Minus,Variable[1],Monomial[1]
symbolic.Minus,Variable[1],PolynomialMatrix[v]
symbolic.Minus,Variable[1],PolynomialVector[1]
symbolic.Minus,Variable[1],PolynomialVector[v]
symbolic.Minus,Variable[1],Polynomial[1]
symbolic.Minus,Variable[1],VariableVector[1]
symbolic.Minus,Variable[1],VariableVector[v]
symbolic.Minus,Variable[1],Variable[1]
symbolic.ScalarPowerTemplate,K[1],int
symbolic.ScalarPowerTemplate,Monomial[1],int
symbolic.ScalarPowerTemplate,Polynomial[1],int
symbolic.ScalarPowerTemplate,Variable[1],int
symbolic.ToExpression,*mat.Dense[m]
symbolic.ToExpression,*mat.VecDense[v]
symbolic.ToExpression,Dense[m]
symbolic.ToExpression,Dense[v]
symbolic.ToExpression,KMatrix[1]
symbolic.ToExpression,KMatrix[m]
symbolic.ToExpression,KMatrix[r]
symbolic.ToExpression,KMatrix[v]
symbolic.ToExpression,KVector[1]
symbolic.ToExpression,KVector[v]
symbolic.ToExpression,K[1]
symbolic.ToExpression,MonomialMatrix[m]
symbolic.ToExpression,MonomialMatrix[r]
symbolic.ToExpression,MonomialMatrix[v]
symbolic.ToExpression,MonomialVector[1]
symbolic.ToExpression,MonomialVector[v]
symbolic.ToExpression,Monomial[1]
symbolic.ToExpression,PolynomialMatrix[m]
symbolic.ToExpression,PolynomialMatrix[r]
symbolic.ToExpression,PolynomialMatrix[v]
symbolic.ToExpression,PolynomialVector[1]
symbolic.ToExpression,PolynomialVector[v]
symbolic.ToExpression,Polynomial[1]
symbolic.ToExpression,VariableMatrix[m]
symbolic.ToExpression,VariableMatrix[r]
symbolic.ToExpression,VariableMatrix[v]
symbolic.ToExpression,VariableVector[1]
symbolic.ToExpression,VariableVector[v]
symbolic.ToExpression,Variable[1]
symbolic.ToExpression,VecDense[1]
symbolic.ToExpression,VecDense[v]
symbolic.ToExpression,float64
symbolic.ToMatrixExpression,*mat.Dense[m]
symbolic.ToMatrixExpression,*mat.VecDense[v]
symbolic.ToMatrixExpression,Dense[m]
symbolic.ToMatrixExpression,Dense[r]
symbolic.ToMatrixExpression,Dense[v]
symbolic.ToMatrixExpression,KMatrix[1]
symbolic.ToMatrixExpression,KMatrix[m]
symbolic.ToMatrixExpression,KMatrix[r]
symbolic.ToMatrixExpression,KMatrix[v]
symbolic.ToMatrixExpression,KVector[1]
symbolic.ToMatrixExpression,KVector[v]
symbolic.ToMatrixExpression,K[1]
symbolic.ToMatrixExpression,MonomialMatrix[m]
symbolic.ToMatrixExpression,MonomialMatrix[r]
symbolic.ToMatrixExpression,MonomialMatrix[v]
symbolic.ToMatrixExpression,MonomialVector[1]
symbolic.ToMatrixExpression,MonomialVector[v]
symbolic.ToMatrixExpression,Monomial[1]
symbolic.ToMatrixExpression,PolynomialMatrix[m]
symbolic.ToMatrixExpression,PolynomialMatrix[r]
symbolic.ToMatrixExpression,PolynomialMatrix[v]
symbolic.ToMatrixExpression,PolynomialVector[1]
symbolic.ToMatrixExpression,PolynomialVector[v]
symbolic.ToMatrixExpression,Polynomial[1]
symbolic.ToMatrixExpression,VariableMatrix[m]
symbolic.ToMatrixExpression,VariableMatrix[r]
symbolic.ToMatrixExpression,VariableMatrix[v]
symbolic.ToMatrixExpression,VariableVector[1]
symbolic.ToMatrixExpression,VariableVector[v]
symbolic.ToMatrixExpression,Variable[1]
symbolic.ToMatrixExpression,VecDense[1]
symbolic.ToMatrixExpression,VecDense[v]
symbolic.ToMatrixExpression,float64
symbolic.ToMatrixExpression,int
symbolic.ToPolynomialLike,Dense[m]
symbolic.ToPolynomialLike,Dense[r]
symbolic.ToPolynomialLike,Dense[v]
symbolic.ToPolynomialLike,KMatrix[1]
symbolic.ToPolynomialLike,KMatrix[m]
symbolic.ToPolynomialLike,KMatrix[r]
symbolic.ToPolynomialLike,KMatrix[v]
symbolic.ToPolynomialLike,KVector[1]
symbolic.ToPolynomialLike,KVector[v]
symbolic.ToPolynomialLike,K[1]
symbolic.ToPolynomialLike,MonomialMatrix[m]
symbolic.ToPolynomialLike,MonomialMatrix[r]
symbolic.ToPolynomialLike,MonomialMatrix[v]
symbolic.ToPolynomialLike,MonomialVector[1]
symbolic.ToPolynomialLike,MonomialVector[v]
symbolic.ToPolynomialLike,Monomial[1]
symbolic.ToPolynomialLike,PolynomialMatrix[m]
symbolic.ToPolynomialLike,PolynomialMatrix[r]
symbolic.ToPolynomialLike,PolynomialMatrix[v]
symbolic.ToPolynomialLike,PolynomialVector[1]
symbolic.ToPolynomialLike,PolynomialVector[v]
symbolic.ToPolynomialLike,Polynomial[1]
symbolic.ToPolynomialLike,VariableMatrix[m]
symbolic.ToPolynomialLike,VariableMatrix[r]
symbolic.ToPolynomialLike,VariableMatrix[v]
symbolic.ToPolynomialLike,VariableVector[1]
symbolic.ToPolynomialLike,VariableVector[v]
symbolic.ToPolynomialLike,Variable[1]
symbolic.ToPolynomialLike,VecDense[1]
symbolic.ToPolynomialLike,VecDense[v]
symbolic.ToPolynomialLike,float64
symbolic.ToPolynomialLikeMatrix,*mat.Dense[m]
symbolic.ToPolynomialLikeMatrix,*mat.VecDense[v]
symbolic.ToPolynomialLikeMatrix,Dense[m]
symbolic.ToPolynomialLikeMatrix,Dense[v]
symbolic.ToPolynomialLikeMatrix,KMatrix[1]
symbolic.ToPolynomialLikeMatrix,KMatrix[m]
symbolic.ToPolynomialLikeMatrix,KMatrix[r]
symbolic.ToPolynomialLikeMatrix,KMatrix[v]
symbolic.ToPolynomialLikeMatrix,KVector[1]
symbolic.ToPolynomialLikeMatrix,KVector[v]
symbolic.ToPolynomialLikeMatrix,K[1]
symbolic.ToPolynomialLikeMatrix,MonomialMatrix[m]
symbolic.ToPolynomialLikeMatrix,MonomialMatrix[r]
symbolic.ToPolynomialLikeMatrix,MonomialMatrix[v]
symbolic.ToPolynomialLikeMatrix,MonomialVector[1]
symbolic.ToPolynomialLikeMatrix,MonomialVector[v]
symbolic.ToPolynomialLikeMatrix,Monomial[1]
symbolic.ToPolynomialLikeMatrix,PolynomialMatrix[m]
symbolic.ToPolynomialLikeMatrix,PolynomialMatrix[r]
symbolic.ToPolynomialLikeMatrix,PolynomialMatrix[v]
symbolic.ToPolynomialLikeMatrix,PolynomialVector[1]
symbolic.ToPolynomialLikeMatrix,PolynomialVector[v]
symbolic.ToPolynomialLikeMatrix,Polynomial[1]
symbolic.ToPolynomialLikeMatrix,VariableMatrix[m]
symbolic.ToPolynomialLikeMatrix,VariableMatrix[r]
symbolic.ToPolynomialLikeMatrix,VariableMatrix[v]
symbolic.ToPolynomialLikeMatrix,VariableVector[1]
symbolic.ToPolynomialLikeMatrix,VariableVector[v]
symbolic.ToPolynomialLikeMatrix,Variable[1]
symbolic.ToPolynomialLikeMatrix,VecDense[1]
symbolic.ToPolynomialLikeMatrix,VecDense[v]
symbolic.ToPolynomialLikeMatrix,float64
symbolic.ToPolynomialLikeMatrix,int
symbolic.ToPolynomialLikeScalar,*mat.Dense[m]
symbolic.ToPolynomialLikeScalar,*mat.VecDense[v]
symbolic.ToPolynomialLikeScalar,Dense[m]
symbolic.ToPolynomialLikeScalar,Dense[r]
symbolic.ToPolynomialLikeScalar,Dense[v]
symbolic.ToPolynomialLikeScalar,KMatrix[1]
symbolic.ToPolynomialLikeScalar,KMatrix[m]
symbolic.ToPolynomialLikeScalar,KMatrix[r]
symbolic.ToPolynomialLikeScalar,KMatrix[v]
symbolic.ToPolynomialLikeScalar,KVector[1]
symbolic.ToPolynomialLikeScalar,KVector[v]
symbolic.ToPolynomialLikeScalar,K[1]
symbolic.ToPolynomialLikeScalar,MonomialMatrix[m]
symbolic.ToPolynomialLikeScalar,MonomialMatrix[r]
symbolic.ToPolynomialLikeScalar,MonomialMatrix[v]
symbolic.ToPolynomialLikeScalar,MonomialVector[1]
symbolic.ToPolynomialLikeScalar,MonomialVector[v]
symbolic.ToPolynomialLikeScalar,Monomial[1]
symbolic.ToPolynomialLikeScalar,PolynomialMatrix[m]
symbolic.ToPolynomialLikeScalar,PolynomialMatrix[r]
symbolic.ToPolynomialLikeScalar,PolynomialMatrix[v]
symbolic.ToPolynomialLikeScalar,PolynomialVector[1]
symbolic.ToPolynomialLikeScalar,PolynomialVector[v]
symbolic.ToPolynomialLikeScalar,Polynomial[1]
symbolic.ToPolynomialLikeScalar,VariableMatrix[m]
symbolic.ToPolynomialLikeScalar,VariableMatrix[r]
symbolic.ToPolynomialLikeScalar,VariableMatrix[v]
symbolic.ToPolynomialLikeScalar,VariableVector[1]
symbolic.ToPolynomialLikeScalar,VariableVector[v]
symbolic.ToPolynomialLikeScalar,Variable[1]
symbolic.ToPolynomialLikeScalar,VecDense[1]
symbolic.ToPolynomialLikeScalar,VecDense[v]
symbolic.ToPolynomialLikeScalar,float64
symbolic.ToPolynomialLikeScalar,int
symbolic.ToPolynomialLikeVector,*mat.Dense[m]
symbolic.ToPolynomialLikeVector,*mat.VecDense[v]
symbolic.ToPolynomialLikeVector,Dense[m]
symbolic.ToPolynomialLikeVector,Dense[r]
symbolic.ToPolynomialLikeVector,Dense[v]
symbolic.ToPolynomialLikeVector,KMatrix[m]
symbolic.ToPolynomialLikeVector,KMatrix[r]
symbolic.ToPolynomialLikeVector,KMatrix[v]
symbolic.ToPolynomialLikeVector,KVector[1]
symbolic.ToPolynomialLikeVector,KVector[v]
symbolic.ToPolynomialLikeVector,K[1]
symbolic.ToPolynomialLikeVector,MonomialMatrix[m]
symbolic.ToPolynomialLikeVector,MonomialMatrix[r]
symbolic.ToPolynomialLikeVector,MonomialMatrix[v]
symbolic.ToPolynomialLikeVector,MonomialVector[1]
symbolic.ToPolynomialLikeVector,MonomialVector[v]
symbolic.ToPolynomialLikeVector,Monomial[1]
symbolic.ToPolynomialLikeVector,PolynomialMatrix[m]
symbolic.ToPolynomialLikeVector,PolynomialMatrix[r]
symbolic.ToPolynomialLikeVector,PolynomialMatrix[v]
symbolic.ToPolynomialLikeVector,PolynomialVector[1]
symbolic.ToPolynomialLikeVector,PolynomialVector[v]
symbolic.ToPolynomialLikeVector,Polynomial[1]
symbolic.ToPolynomialLikeVector,VariableMatrix[m]
symbolic.ToPolynomialLikeVector,VariableMatrix[r]
symbolic.ToPolynomialLikeVector,VariableMatrix[v]
symbolic.ToPolynomialLikeVector,VariableVector[1]
symbolic.ToPolynomialLikeVector,VariableVector[v]
symbolic.ToPolynomialLikeVector,Variable[1]
symbolic.ToPolynomialLikeVector,VecDense[1]
symbolic.ToPolynomialLikeVector,VecDense[v]
symbolic.ToPolynomialLikeVector,float64
symbolic.ToPolynomialLikeVector,int
symbolic.ToScalarExpression,*mat.Dense[m]
symbolic.ToScalarExpression,*mat.VecDense[v]
symbolic.ToScalarExpression,Dense[m]
symbolic.ToScalarExpression,Dense[v]
symbolic.ToScalarExpression,KMatrix[1]
symbolic.ToScalarExpression,KMatrix[m]
symbolic.ToScalarExpression,KMatrix[r]
symbolic.ToScalarExpression,KMatrix[v]
symbolic.ToScalarExpression,KVector[1]
symbolic.ToScalarExpression,KVector[v]
symbolic.ToScalarExpression,K[1]
symbolic.ToScalarExpression,MonomialMatrix[m]
symbolic.ToScalarExpression,MonomialMatrix[r]
symbolic.ToScalarExpression,MonomialMatrix[v]
symbolic.ToScalarExpression,MonomialVector[1]
symbolic.ToScalarExpression,MonomialVector[v]
symbolic.ToScalarExpression,Monomial[1]
symbolic.ToScalarExpression,PolynomialMatrix[m]
symbolic.ToScalarExpression,PolynomialMatrix[r]
symbolic.ToScalarExpression,PolynomialMatrix[v]
symbolic.ToScalarExpression,PolynomialVector[1]
symbolic.ToScalarExpression,PolynomialVector[v]
symbolic.ToScalarExpression,Polynomial[1]
symbolic.ToScalarExpression,VariableMatrix[m]
symbolic.ToScalarExpression,VariableMatrix[r]
symbolic.ToScalarExpression,VariableMatrix[v]
symbolic.ToScalarExpression,VariableVector[1]
symbolic.ToScalarExpression,VariableVector[v]
symbolic.ToScalarExpression,Variable[1]
symbolic.ToScalarExpression,VecDense[1]
symbolic.ToScalarExpression,VecDense[v]
symbolic.ToScalarExpression,float64
symbolic.ToScalarExpression,int
symbolic.ToVectorExpression,*mat.Dense[m]
symbolic.ToVectorExpression,*mat.VecDense[v]
symbolic.ToVectorExpression,Dense[m]
symbolic.ToVectorExpression,Dense[r]
symbolic.ToVectorExpression,Dense[v]
symbolic.ToVectorExpression,KMatrix[1]
symbolic.ToVectorExpression,KMatrix[m]
symbolic.ToVectorExpression,KMatrix[r]
symbolic.ToVectorExpression,KMatrix[v]
symbolic.ToVectorExpression,KVector[1]
symbolic.ToVectorExpression,KVector[v]
symbolic.ToVectorExpression,K[1]
symbolic.ToVectorExpression,MonomialMatrix[m]
symbolic.ToVectorExpression,MonomialMatrix[r]
symbolic.ToVectorExpression,MonomialMatrix[v]
symbolic.ToVectorExpression,MonomialVector[1]
symbolic.ToVectorExpression,MonomialVector[v]
symbolic.ToVectorExpression,Monomial[1]
symbolic.ToVectorExpression,PolynomialMatrix[m]
symbolic.ToVectorExpression,PolynomialMatrix[r]
symbolic.ToVectorExpression,PolynomialMatrix[v]
symbolic.ToVectorExpression,PolynomialVector[1]
symbolic.ToVectorExpression,PolynomialVector[v]
symbolic.ToVectorExpression,Polynomial[1]
symbolic.ToVectorExpression,VariableMatrix[m]
symbolic.ToVectorExpression,VariableMatrix[r]
symbolic.ToVectorExpression,VariableMatrix[v]
symbolic.ToVectorExpression,VariableVector[1]
symbolic.ToVectorExpression,VariableVector[v]
symbolic.ToVectorExpression,Variable[1]
symbolic.ToVectorExpression,VecDense[1]
symbolic.ToVectorExpression,VecDense[v]
symbolic.ToVectorExpression,float64
symbolic.ToVectorExpression,int
symbolic.VStack,KMatrix[1]
symbolic.VStack,KMatrix[m]
symbolic.VStack,KMatrix[m],KMatrix[mrc]
symbolic.VStack,KMatrix[m],KMatrix[mrc],KMatrix[mrc]
symbolic.VStack,KMatrix[m],KMatrix[mrcx]
symbolic.VStack,KMatrix[m],KMatrix[mrcx],KMatrix[mrcx]
symbolic.VStack,KMatrix[m],KMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,KMatrix[m],MonomialMatrix[mrc]
symbolic.VStack,KMatrix[m],MonomialMatrix[mrcx]
symbolic.VStack,KMatrix[m],PolynomialMatrix[mrc]
symbolic.VStack,KMatrix[m],PolynomialMatrix[mrcx]
symbolic.VStack,KMatrix[m],PolynomialMatrix[mrcx],KMatrix[mrcx]
symbolic.VStack,KMatrix[m],PolynomialMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,KMatrix[m],VariableMatrix[mrcx]
symbolic.VStack,KMatrix[r]
symbolic.VStack,KMatrix[r],KMatrix[rrc]
symbolic.VStack,KMatrix[v]
symbolic.VStack,KVector[1]
symbolic.VStack,KVector[1],Monomial[1]
symbolic.VStack,KVector[1],Polynomial[1]
symbolic.VStack,KVector[v]
symbolic.VStack,KVector[v],KVector[vrc]
symbolic.VStack,KVector[v],K[1]
symbolic.VStack,KVector[v],MonomialVector[vrc]
symbolic.VStack,KVector[v],Monomial[1]
symbolic.VStack,KVector[v],Monomial[1],Monomial[1]
symbolic.VStack,KVector[v],PolynomialVector[vrc]
symbolic.VStack,KVector[v],Polynomial[1]
symbolic.VStack,KVector[v],VariableVector[vrc]
symbolic.VStack,KVector[v],Variable[1]
symbolic.VStack,K[1]
symbolic.VStack,K[1],KVector[v]
symbolic.VStack,K[1],K[1]
symbolic.VStack,K[1],MonomialVector[v]
symbolic.VStack,K[1],Monomial[1]
symbolic.VStack,K[1],Monomial[1],Monomial[1]
symbolic.VStack,K[1],PolynomialVector[v]
symbolic.VStack,K[1],Polynomial[1]
symbolic.VStack,K[1],Polynomial[1],Monomial[1]
symbolic.VStack,K[1],Polynomial[1],Polynomial[1]
symbolic.VStack,K[1],Polynomial[1],Variable[1]
symbolic.VStack,K[1],VariableVector[v]
symbolic.VStack,K[1],Variable[1]
symbolic.VStack,K[1],Variable[1],Polynomial[1]
symbolic.VStack,MonomialMatrix[m]
symbolic.VStack,MonomialMatrix[m],KMatrix[mrcx]
symbolic.VStack,MonomialMatrix[m],MonomialMatrix[mrc]
symbolic.VStack,MonomialMatrix[m],MonomialMatrix[mrc],MonomialMatrix[mrc]
symbolic.VStack,MonomialMatrix[m],MonomialMatrix[mrcx]
symbolic.VStack,MonomialMatrix[m],MonomialMatrix[mrcx],MonomialMatrix[mrcx]
symbolic.VStack,MonomialMatrix[m],PolynomialMatrix[mrc]
symbolic.VStack,MonomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.VStack,MonomialMatrix[m],PolynomialMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,MonomialMatrix[m],VariableMatrix[mrcx]
symbolic.VStack,MonomialMatrix[r]
symbolic.VStack,MonomialMatrix[r],MonomialMatrix[rrc]
symbolic.VStack,MonomialMatrix[v]
symbolic.VStack,MonomialVector[1]
symbolic.VStack,MonomialVector[v]
symbolic.VStack,MonomialVector[v],KVector[vrc]
symbolic.VStack,MonomialVector[v],K[1]
symbolic.VStack,MonomialVector[v],MonomialVector[vrc]
symbolic.VStack,MonomialVector[v],Monomial[1]
symbolic.VStack,MonomialVector[v],PolynomialVector[vrc]
symbolic.VStack,MonomialVector[v],Polynomial[1]
symbolic.VStack,MonomialVector[v],Polynomial[1],Polynomial[1]
symbolic.VStack,MonomialVector[v],VariableVector[vrc]
symbolic.VStack,MonomialVector[v],Variable[1]
symbolic.VStack,Monomial[1]
symbolic.VStack,Monomial[1],KVector[1]
symbolic.VStack,Monomial[1],KVector[v]
symbolic.VStack,Monomial[1],K[1]
symbolic.VStack,Monomial[1],K[1],Monomial[1]
symbolic.VStack,Monomial[1],K[1],Polynomial[1]
symbolic.VStack,Monomial[1],MonomialMatrix[v]
symbolic.VStack,Monomial[1],MonomialVector[v]
symbolic.VStack,Monomial[1],MonomialVector[v],Monomial[1]
symbolic.VStack,Monomial[1],Monomial[1]
symbolic.VStack,Monomial[1],Monomial[1],K[1]
symbolic.VStack,Monomial[1],Monomial[1],MonomialVector[v]
symbolic.VStack,Monomial[1],Monomial[1],Monomial[1]
symbolic.VStack,Monomial[1],Monomial[1],PolynomialVector[v]
symbolic.VStack,Monomial[1],Monomial[1],Polynomial[1]
symbolic.VStack,Monomial[1],Monomial[1],VariableVector[v]
symbolic.VStack,Monomial[1],Monomial[1],Variable[1]
symbolic.VStack,Monomial[1],PolynomialVector[1]
symbolic.VStack,Monomial[1],PolynomialVector[v]
symbolic.VStack,Monomial[1],PolynomialVector[v],Monomial[1]
symbolic.VStack,Monomial[1],PolynomialVector[v],PolynomialVector[v]
symbolic.VStack,Monomial[1],PolynomialVector[v],Polynomial[1]
symbolic.VStack,Monomial[1],PolynomialVector[v],Variable[1]
symbolic.VStack,Monomial[1],Polynomial[1]
symbolic.VStack,Monomial[1],Polynomial[1],K[1]
symbolic.VStack,Monomial[1],Polynomial[1],Monomial[1]
symbolic.VStack,Monomial[1],Polynomial[1],PolynomialVector[v]
symbolic.VStack,Monomial[1],Polynomial[1],Polynomial[1]
symbolic.VStack,Monomial[1],Polynomial[1],VariableVector[v]
symbolic.VStack,Monomial[1],Polynomial[1],Variable[1]
symbolic.VStack,Monomial[1],VariableVector[1]
symbolic.VStack,Monomial[1],VariableVector[v]
symbolic.VStack,Monomial[1],VariableVector[v],Monomial[1]
symbolic.VStack,Monomial[1],VariableVector[v],Polynomial[1]
symbolic.VStack,Monomial[1],VariableVector[v],Variable[1]
symbolic.VStack,Monomial[1],Variable[1]
symbolic.VStack,Monomial[1],Variable[1],K[1]
symbolic.VStack,Monomial[1],Variable[1],Monomial[1]
symbolic.VStack,Monomial[1],Variable[1],PolynomialVector[v]
symbolic.VStack,Monomial[1],Variable[1],Polynomial[1]
symbolic.VStack,Monomial[1],Variable[1],Variable[1]
symbolic.VStack,PolynomialMatrix[m]
symbolic.VStack,PolynomialMatrix[m],KMatrix[mrc]
symbolic.VStack,PolynomialMatrix[m],KMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],KMatrix[mrcx],KMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],KMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],MonomialMatrix[mrc]
symbolic.VStack,PolynomialMatrix[m],MonomialMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],MonomialMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],PolynomialMatrix[mrc]
symbolic.VStack,PolynomialMatrix[m],PolynomialMatrix[mrc],PolynomialMatrix[mrc]
symbolic.VStack,PolynomialMatrix[m],PolynomialMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],PolynomialMatrix[mrcx],KMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],PolynomialMatrix[mrcx],MonomialMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],PolynomialMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],PolynomialMatrix[mrcx],VariableMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],VariableMatrix[mrc]
symbolic.VStack,PolynomialMatrix[m],VariableMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[m],VariableMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,PolynomialMatrix[r]
symbolic.VStack,PolynomialMatrix[r],PolynomialMatrix[rrc]
symbolic.VStack,PolynomialMatrix[r],PolynomialMatrix[rrc],PolynomialMatrix[rrc]
symbolic.VStack,PolynomialMatrix[v]
symbolic.VStack,PolynomialMatrix[v],Polynomial[1]
symbolic.VStack,PolynomialVector[1]
symbolic.VStack,PolynomialVector[1],Monomial[1]
symbolic.VStack,PolynomialVector[1],Polynomial[1]
symbolic.VStack,PolynomialVector[1],Variable[1]
symbolic.VStack,PolynomialVector[v]
symbolic.VStack,PolynomialVector[v],KVector[vrc]
symbolic.VStack,PolynomialVector[v],K[1]
symbolic.VStack,PolynomialVector[v],MonomialVector[vrc]
symbolic.VStack,PolynomialVector[v],Monomial[1]
symbolic.VStack,PolynomialVector[v],Monomial[1],Monomial[1]
symbolic.VStack,PolynomialVector[v],Monomial[1],Polynomial[1]
symbolic.VStack,PolynomialVector[v],PolynomialVector[vc]
symbolic.VStack,PolynomialVector[v],PolynomialVector[vrc]
symbolic.VStack,PolynomialVector[v],Polynomial[1]
symbolic.VStack,PolynomialVector[v],Polynomial[1],Monomial[1]
symbolic.VStack,PolynomialVector[v],Polynomial[1],Polynomial[1]
symbolic.VStack,PolynomialVector[v],Polynomial[1],Variable[1]
symbolic.VStack,PolynomialVector[v],VariableVector[vrc]
symbolic.VStack,PolynomialVector[v],Variable[1]
symbolic.VStack,PolynomialVector[v],Variable[1],Monomial[1]
symbolic.VStack,PolynomialVector[v],Variable[1],Polynomial[1]
symbolic.VStack,Polynomial[1]
symbolic.VStack,Polynomial[1],KVector[1]
symbolic.VStack,Polynomial[1],KVector[v]
symbolic.VStack,Polynomial[1],K[1]
symbolic.VStack,Polynomial[1],K[1],Monomial[1]
symbolic.VStack,Polynomial[1],K[1],Polynomial[1]
symbolic.VStack,Polynomial[1],MonomialVector[v]
symbolic.VStack,Polynomial[1],MonomialVector[v],Monomial[1]
symbolic.VStack,Polynomial[1],Monomial[1]
symbolic.VStack,Polynomial[1],Monomial[1],K[1]
symbolic.VStack,Polynomial[1],Monomial[1],Monomial[1]
symbolic.VStack,Polynomial[1],Monomial[1],PolynomialVector[v]
symbolic.VStack,Polynomial[1],Monomial[1],Polynomial[1]
symbolic.VStack,Polynomial[1],Monomial[1],Variable[1]
symbolic.VStack,Polynomial[1],PolynomialVector[1]
symbolic.VStack,Polynomial[1],PolynomialVector[v]
symbolic.VStack,Polynomial[1],PolynomialVector[v],Monomial[1]
symbolic.VStack,Polynomial[1],PolynomialVector[v],PolynomialVector[v]
symbolic.VStack,Polynomial[1],PolynomialVector[v],Polynomial[1]
symbolic.VStack,Polynomial[1],Polynomial[1]
symbolic.VStack,Polynomial[1],Polynomial[1],K[1]
symbolic.VStack,Polynomial[1],Polynomial[1],MonomialVector[v]
symbolic.VStack,Polynomial[1],Polynomial[1],Monomial[1]
symbolic.VStack,Polynomial[1],Polynomial[1],PolynomialVector[v]
symbolic.VStack,Polynomial[1],Polynomial[1],Polynomial[1]
symbolic.VStack,Polynomial[1],Polynomial[1],VariableVector[v]
symbolic.VStack,Polynomial[1],Polynomial[1],Variable[1]
symbolic.VStack,Polynomial[1],VariableVector[1]
symbolic.VStack,Polynomial[1],VariableVector[v]
symbolic.VStack,Polynomial[1],VariableVector[v],Monomial[1]
symbolic.VStack,Polynomial[1],VariableVector[v],Polynomial[1]
symbolic.VStack,Polynomial[1],VariableVector[v],Variable[1]
symbolic.VStack,Polynomial[1],Variable[1]
symbolic.VStack,Polynomial[1],Variable[1],K[1]
symbolic.VStack,Polynomial[1],Variable[1],Monomial[1]
symbolic.VStack,Polynomial[1],Variable[1],PolynomialVector[v]
symbolic.VStack,Polynomial[1],Variable[1],Polynomial[1]
symbolic.VStack,Polynomial[1],Variable[1],Variable[1]
symbolic.VStack,VariableMatrix[m]
symbolic.VStack,VariableMatrix[m],KMatrix[mrc]
symbolic.VStack,VariableMatrix[m],KMatrix[mrcx]
symbolic.VStack,VariableMatrix[m],MonomialMatrix[mrcx]
symbolic.VStack,VariableMatrix[m],PolynomialMatrix[mrc]
symbolic.VStack,VariableMatrix[m],PolynomialMatrix[mrcx]
symbolic.VStack,VariableMatrix[m],PolynomialMatrix[mrcx],PolynomialMatrix[mrcx]
symbolic.VStack,VariableMatrix[m],VariableMatrix[mrc]
symbolic.VStack,VariableMatrix[m],VariableMatrix[mrcx]
symbolic.VStack,VariableMatrix[r]
symbolic.VStack,VariableMatrix[r],VariableMatrix[rrc]
symbolic.VStack,VariableMatrix[v]
symbolic.VStack,VariableVector[1]
symbolic.VStack,VariableVector[1],Monomial[1]
symbolic.VStack,VariableVector[1],Polynomial[1]
symbolic.VStack,VariableVector[1],Variable[1]
symbolic.VStack,VariableVector[v]
symbolic.VStack,VariableVector[v],KVector[vrc]
symbolic.VStack,VariableVector[v],K[1]
symbolic.VStack,VariableVector[v],MonomialVector[vrc]
symbolic.VStack,VariableVector[v],Monomial[1]
symbolic.VStack,VariableVector[v],Monomial[1],Monomial[1]
symbolic.VStack,VariableVector[v],Monomial[1],Polynomial[1]
symbolic.VStack,VariableVector[v],Monomial[1],Variable[1]
symbolic.VStack,VariableVector[v],PolynomialVector[vrc]
symbolic.VStack,VariableVector[v],Polynomial[1]
symbolic.VStack,VariableVector[v],Polynomial[1],Monomial[1]
symbolic.VStack,VariableVector[v],Polynomial[1],Polynomial[1]
symbolic.VStack,VariableVector[v],VariableVector[vrc]
symbolic.VStack,VariableVector[v],Variable[1]
symbolic.VStack,VariableVector[v],Variable[1],Variable[1]
symbolic.VStack,Variable[1]
symbolic.VStack,Variable[1],KVector[1]
symbolic.VStack,Variable[1],KVector[v]
symbolic.VStack,Variable[1],K[1]
symbolic.VStack,Variable[1],K[1],Monomial[1]
symbolic.VStack,Variable[1],MonomialVector[v]
symbolic.VStack,Variable[1],MonomialVector[v],Monomial[1]
symbolic.VStack,Variable[1],Monomial[1]
symbolic.VStack,Variable[1],Monomial[1],K[1]
symbolic.VStack,Variable[1],Monomial[1],Monomial[1]
symbolic.VStack,Variable[1],Monomial[1],PolynomialVector[v]
symbolic.VStack,Variable[1],Monomial[1],Polynomial[1]
symbolic.VStack,Variable[1],Monomial[1],Variable[1]
symbolic.VStack,Variable[1],PolynomialVector[1]
symbolic.VStack,Variable[1],PolynomialVector[v]
symbolic.VStack,Variable[1],PolynomialVector[v],Polynomial[1]
symbolic.VStack,Variable[1],Polynomial[1]
symbolic.VStack,Variable[1],Polynomial[1],K[1]
symbolic.VStack,Variable[1],Polynomial[1],Monomial[1]
symbolic.VStack,Variable[1],Polynomial[1],Polynomial[1]
symbolic.VStack,Variable[1],Polynomial[1],VariableVector[v]
symbolic.VStack,Variable[1],Polynomial[1],Variable[1]
symbolic.VStack,Variable[1],VariableVector[1]
symbolic.VStack,Variable[1],VariableVector[v]
symbolic.VStack,Variable[1],Variable[1]
symbolic.VStack,Variable[1],Variable[1],Monomial[1]
symbolic.VStack,Variable[1],Variable[1],Polynomial[1]
symbolic.VStack,Variable[1],Variable[1],Variable[1]
symbolic.VecDenseToKVector,VecDense[1]
symbolic.VecDenseToKVector,VecDense[v]
symbolic.VectorMultiplyTemplate,KVector[1],K[1]
symbolic.VectorMultiplyTemplate,KVector[1],Monomial[1]
symbolic.VectorMultiplyTemplate,KVector[1],Polynomial[1]
symbolic.VectorMultiplyTemplate,KVector[1],Variable[1]
symbolic.VectorMultiplyTemplate,KVector[v],K[1]
symbolic.VectorMultiplyTemplate,KVector[v],Monomial[1]
symbolic.VectorMultiplyTemplate,KVector[v],Polynomial[1]
symbolic.VectorMultiplyTemplate,KVector[v],Variable[1]
symbolic.VectorMultiplyTemplate,MonomialVector[1],K[1]
symbolic.VectorMultiplyTemplate,MonomialVector[1],Monomial[1]
symbolic.VectorMultiplyTemplate,MonomialVector[1],Polynomial[1]
symbolic.VectorMultiplyTemplate,MonomialVector[1],Variable[1]
symbolic.VectorMultiplyTemplate,MonomialVector[v],K[1]
symbolic.VectorMultiplyTemplate,MonomialVector[v],Monomial[1]
symbolic.VectorMultiplyTemplate,MonomialVector[v],Polynomial[1]
symbolic.VectorMultiplyTemplate,MonomialVector[v],Variable[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[1],K[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[1],Monomial[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[1],Polynomial[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[1],Variable[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[v],K[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[v],Monomial[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[v],Polynomial[1]
symbolic.VectorMultiplyTemplate,PolynomialVector[v],Variable[1]
symbolic.VectorMultiplyTemplate,VariableVector[1],K[1]
symbolic.VectorMultiplyTemplate,VariableVector[1],Monomial[1]
symbolic.VectorMultiplyTemplate,VariableVector[1],Polynomial[1]
symbolic.VectorMultiplyTemplate,VariableVector[1],Variable[1]
symbolic.VectorMultiplyTemplate,VariableVector[v],K[1]
symbolic.VectorMultiplyTemplate,VariableVector[v],Monomial[1]
symbolic.VectorMultiplyTemplate,VariableVector[v],Polynomial[1]
symbolic.VectorMultiplyTemplate,VariableVector[v],Variable[1]
symbolic.VectorPlusTemplate,KVector[1],KVector[1]
symbolic.VectorPlusTemplate,KVector[1],K[1]
symbolic.VectorPlusTemplate,KVector[1],Monomial[1]
symbolic.VectorPlusTemplate,KVector[1],Polynomial[1]
symbolic.VectorPlusTemplate,KVector[1],Variable[1]
symbolic.VectorPlusTemplate,KVector[v],KVector[vrc]
symbolic.VectorPlusTemplate,KVector[v],K[1]
symbolic.VectorPlusTemplate,KVector[v],MonomialVector[vrc]
symbolic.VectorPlusTemplate,KVector[v],Monomial[1]
symbolic.VectorPlusTemplate,KVector[v],PolynomialVector[vrc]
symbolic.VectorPlusTemplate,KVector[v],Polynomial[1]
symbolic.VectorPlusTemplate,KVector[v],VariableVector[vrc]
symbolic.VectorPlusTemplate,KVector[v],Variable[1]
symbolic.VectorPlusTemplate,MonomialVector[1],K[1]
symbolic.VectorPlusTemplate,MonomialVector[1],MonomialVector[1]
symbolic.VectorPlusTemplate,MonomialVector[1],Monomial[1]
symbolic.VectorPlusTemplate,MonomialVector[1],Polynomial[1]
symbolic.VectorPlusTemplate,MonomialVector[1],Variable[1]
symbolic.VectorPlusTemplate,MonomialVector[v],KVector[vrc]
symbolic.VectorPlusTemplate,MonomialVector[v],K[1]
symbolic.VectorPlusTemplate,MonomialVector[v],MonomialVector[vrc]
symbolic.VectorPlusTemplate,MonomialVector[v],Monomial[1]
symbolic.VectorPlusTemplate,MonomialVector[v],PolynomialVector[vrc]
symbolic.VectorPlusTemplate,MonomialVector[v],Polynomial[1]
symbolic.VectorPlusTemplate,MonomialVector[v],VariableVector[vrc]
symbolic.VectorPlusTemplate,MonomialVector[v],Variable[1]
symbolic.VectorPlusTemplate,PolynomialVector[1],KVector[1]
symbolic.VectorPlusTemplate,PolynomialVector[1],K[1]
symbolic.VectorPlusTemplate,PolynomialVector[1],Monomial[1]
symbolic.VectorPlusTemplate,PolynomialVector[1],PolynomialVector[1]
symbolic.VectorPlusTemplate,PolynomialVector[1],Polynomial[1]
symbolic.VectorPlusTemplate,PolynomialVector[1],VariableVector[1]
symbolic.VectorPlusTemplate,PolynomialVector[1],Variable[1]
symbolic.VectorPlusTemplate,PolynomialVector[v],KVector[vrc]
symbolic.VectorPlusTemplate,PolynomialVector[v],K[1]
symbolic.VectorPlusTemplate,PolynomialVector[v],MonomialVector[vrc]
symbolic.VectorPlusTemplate,PolynomialVector[v],Monomial[1]
symbolic.VectorPlusTemplate,PolynomialVector[v],PolynomialVector[vrc]
symbolic.VectorPlusTemplate,PolynomialVector[v],Polynomial[1]
symbolic.VectorPlusTemplate,PolynomialVector[v],VariableVector[vrc]
symbolic.VectorPlusTemplate,PolynomialVector[v],Variable[1]
symbolic.VectorPlusTemplate,VariableVector[1],KVector[1]
symbolic.VectorPlusTemplate,VariableVector[1],K[1]
symbolic.VectorPlusTemplate,VariableVector[1],Monomial[1]
symbolic.VectorPlusTemplate,VariableVector[1],PolynomialVector[1]
symbolic.VectorPlusTemplate,VariableVector[1],Polynomial[1]
symbolic.VectorPlusTemplate,VariableVector[1],VariableVector[1]
symbolic.VectorPlusTemplate,VariableVector[1],Variable[1]
symbolic.VectorPlusTemplate,VariableVector[v],KVector[vrc]
symbolic.VectorPlusTemplate,VariableVector[v],K[1]
symbolic.VectorPlusTemplate,VariableVector[v],MonomialVector[vrc]
symbolic.VectorPlusTemplate,VariableVector[v],Monomial[1]
symbolic.VectorPlusTemplate,VariableVector[v],PolynomialVector[vrc]
symbolic.VectorPlusTemplate,VariableVector[v],Polynomial[1]
symbolic.VectorPlusTemplate,VariableVector[v],VariableVector[vrc]
symbolic.VectorPlusTemplate,VariableVector[v],Variable[1]
symbolic.VectorPowerTemplate,KVector[1],int
symbolic.VectorPowerTemplate,MonomialVector[1],int
symbolic.VectorPowerTemplate,PolynomialVector[1],int
symbolic.VectorPowerTemplate,VariableVector[1],int
symbolic.VectorSubstituteTemplate,KVector[1],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,KVector[1],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,KVector[1],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,KVector[1],Variable[1],Variable[1]
symbolic.VectorSubstituteTemplate,KVector[v],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,KVector[v],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,KVector[v],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,KVector[v],Variable[1],Variable[1]
symbolic.VectorSubstituteTemplate,MonomialVector[1],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,MonomialVector[1],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,MonomialVector[1],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,MonomialVector[1],Variable[1],Variable[1]
symbolic.VectorSubstituteTemplate,MonomialVector[v],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,MonomialVector[v],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,MonomialVector[v],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,MonomialVector[v],Variable[1],Variable[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[1],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[1],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[1],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[1],Variable[1],Variable[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[v],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[v],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[v],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,PolynomialVector[v],Variable[1],Variable[1]
symbolic.VectorSubstituteTemplate,VariableVector[1],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,VariableVector[1],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,VariableVector[1],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,VariableVector[1],Variable[1],Variable[1]
symbolic.VectorSubstituteTemplate,VariableVector[v],Variable[1],K[1]
symbolic.VectorSubstituteTemplate,VariableVector[v],Variable[1],Monomial[1]
symbolic.VectorSubstituteTemplate,VariableVector[v],Variable[1],Polynomial[1]
symbolic.VectorSubstituteTemplate,VariableVector[v],Variable[1],Variable[1]
`
