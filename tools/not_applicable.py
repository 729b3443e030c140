CONC = {'C14', 'C15', 'C16', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C37', 'C38', 'C39', 'C45'}
NOTE = {}
NA = {}
