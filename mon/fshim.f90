! calls every procedure of the Fortran interface, from C
#include "engpar.f90"
module shim
  use engpar
  contains
  function f_createEmptyGraph() bind(C,name='f_createEmptyGraph')
    type(c_ptr) :: f_createEmptyGraph
    f_createEmptyGraph = cengpar_createEmptyGraph()
  end function
  subroutine f_setftncommunicator(c) bind(C,name='f_setftncommunicator')
    integer(c_int), value :: c
    call cengpar_setftncommunicator(c)
  end subroutine
  function f_createLocalSplitInput(g,s,l,o,f,tol,ranks,t) bind(C,name='f_createLocalSplitInput')
    type(c_ptr) :: f_createLocalSplitInput
    type(c_ptr), value :: g
    integer(c_int), value :: s, l, f
    logical(c_bool), value :: o
    real(c_double), value :: tol
    integer(c_int32_t), dimension(f) :: ranks
    integer(c_int), value :: t
    f_createLocalSplitInput = cengpar_createLocalSplitInput(g,s,l,o,f,tol,ranks,t)
  end function
  function f_createGlobalSplitInput(g,s,l,o,tol,t) bind(C,name='f_createGlobalSplitInput')
    type(c_ptr) :: f_createGlobalSplitInput
    type(c_ptr), value :: g
    integer(c_int), value :: s, l, t
    logical(c_bool), value :: o
    real(c_double), value :: tol
    f_createGlobalSplitInput = cengpar_createGlobalSplitInput(g,s,l,o,tol,t)
  end function
  function f_createDiffusiveInput(g,sf) bind(C,name='f_createDiffusiveInput')
    type(c_ptr) :: f_createDiffusiveInput
    type(c_ptr), value :: g
    real(c_double), value :: sf
    f_createDiffusiveInput = cengpar_createDiffusiveInput(g,sf)
  end function
  subroutine f_setCutGrowthFactor(i,f) bind(C,name='f_setCutGrowthFactor')
    type(c_ptr), value :: i
    real(c_double), value :: f
    call cengpar_setCutGrowthFactor(i,f)
  end subroutine
  subroutine f_addPriority(i,t,tol) bind(C,name='f_addPriority')
    type(c_ptr), value :: i
    integer(c_int), value :: t
    real(c_double), value :: tol
    call cengpar_addPriority(i,t,tol)
  end subroutine
  subroutine f_balanceGhosts(i,e) bind(C,name='f_balanceGhosts')
    type(c_ptr), value :: i
    logical(c_bool), value :: e
    call cengpar_balanceGhosts(i,e)
  end subroutine
  subroutine f_balance(i,v) bind(C,name='f_balance')
    type(c_ptr), value :: i
    integer(c_int), value :: v
    call cengpar_balance(i,v)
  end subroutine
  subroutine f_loadFromFile(g,n) bind(C,name='f_loadFromFile')
    type(c_ptr), value :: g
    character(c_char) :: n(*)
    call cengpar_loadFromFile(g,n)
  end subroutine
  subroutine f_saveToFile(g,n) bind(C,name='f_saveToFile')
    type(c_ptr), value :: g
    character(c_char) :: n(*)
    call cengpar_saveToFile(g,n)
  end subroutine
  subroutine f_evaluatePartition(g) bind(C,name='f_evaluatePartition')
    type(c_ptr), value :: g
    call cengpar_evaluatePartition(g)
  end subroutine
  subroutine f_split(i,m) bind(C,name='f_split')
    type(c_ptr), value :: i
    character(c_char) :: m(*)
    call cengpar_split(i,m)
  end subroutine
  subroutine f_constructVerts(g,h,v,w,n) bind(C,name='f_constructVerts')
    type(c_ptr), value :: g
    logical(c_bool), value :: h
    integer(c_int), value :: n
    integer(c_int64_t), dimension(n) :: v
    real(c_double), dimension(n) :: w
    call cengpar_constructVerts(g,h,v,w,n)
  end subroutine
  function f_constructEdges(g,e,d,w,p,ne,np) bind(C,name='f_constructEdges')
    integer(c_int) :: f_constructEdges
    type(c_ptr), value :: g
    integer(c_int), value :: ne, np
    integer(c_int64_t), dimension(ne) :: e
    integer(c_int32_t), dimension(ne) :: d
    real(c_double), dimension(ne) :: w
    integer(c_int64_t), dimension(np) :: p
    f_constructEdges = cengpar_constructEdges(g,e,d,w,p,ne,np)
  end function
  subroutine f_constructGhosts(g,v,o,n) bind(C,name='f_constructGhosts')
    type(c_ptr), value :: g
    integer(c_int), value :: n
    integer(c_int64_t), dimension(n) :: v
    integer(c_int32_t), dimension(n) :: o
    call cengpar_constructGhosts(g,v,o,n)
  end subroutine
  subroutine f_checkValidity(g) bind(C,name='f_checkValidity')
    type(c_ptr), value :: g
    call cengpar_checkValidity(g)
  end subroutine
  subroutine f_destroyGraph(g) bind(C,name='f_destroyGraph')
    type(c_ptr), value :: g
    call cengpar_destroyGraph(g)
  end subroutine
  ! the arrays live here, so that what the interface says about them matters
  subroutine f_getPartition(g,v,p,n) bind(C,name='f_getPartition')
    type(c_ptr), value :: g
    integer(c_int), value :: n
    integer(c_int64_t), dimension(n) :: v
    integer(c_int32_t), dimension(n) :: p
    integer(c_int64_t), dimension(:), allocatable :: lv
    integer(c_int32_t), dimension(:), allocatable :: lp
    allocate(lv(n), lp(n))
    lv(:) = -77
    lp(:) = -77
    call cengpar_getPartition(g,lv,lp,n)
    v(:) = lv(:)
    p(:) = lp(:)
    deallocate(lv, lp)
  end subroutine
end module
